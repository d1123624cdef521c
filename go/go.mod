module verif

go 1.26.0
