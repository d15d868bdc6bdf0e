module vh

go 1.25
