module github.com/ericlagergren/decimal

go 1.26.0
