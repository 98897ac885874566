module verif

go 1.23

require (
	github.com/rocketlaunchr/dataframe-go v0.0.0-20201007021539-67b046771f0b
	github.com/sjwhitworth/golearn v0.0.0
	gonum.org/v1/gonum v0.8.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/gonum/blas v0.0.0-20181208220705-f22b278b28ac // indirect
	github.com/gonum/lapack v0.0.0-20181123203213-e4cdc5a0bff9 // indirect
	github.com/gonum/matrix v0.0.0-20181209220409-c518dec07be9 // indirect
	github.com/google/go-cmp v0.4.0 // indirect
	github.com/guptarohit/asciigraph v0.5.1 // indirect
	github.com/mattn/go-runewidth v0.0.7 // indirect
	github.com/olekukonko/tablewriter v0.0.4 // indirect
	golang.org/x/exp v0.0.0-20200331195152-e8c3332aa8e5 // indirect
	golang.org/x/sync v0.0.0-20200317015054-43a5402ce75a // indirect
	golang.org/x/tools v0.0.0-20200501065659-ab2804fb9c9d // indirect
)

replace github.com/sjwhitworth/golearn => /repo
