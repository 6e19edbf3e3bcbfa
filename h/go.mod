module vh

go 1.18
