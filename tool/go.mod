module vtool

go 1.21
