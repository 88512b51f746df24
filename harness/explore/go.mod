module explore

go 1.27
