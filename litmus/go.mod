module verif.local/litmus

go 1.13
