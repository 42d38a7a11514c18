module vcg

go 1.23
