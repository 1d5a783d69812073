module veriftool

go 1.23
