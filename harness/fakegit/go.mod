module fakegit

go 1.27
