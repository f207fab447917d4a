module verifsim

go 1.21
