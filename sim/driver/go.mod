module verif/driver

go 1.23
