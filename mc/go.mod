module verif.local/mc

go 1.21
