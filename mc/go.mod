module mc

go 1.24.4
