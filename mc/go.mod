module gevmc

go 1.21
