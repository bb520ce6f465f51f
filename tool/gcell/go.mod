module gcell

go 1.23
