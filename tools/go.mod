module vtools

go 1.25
