module verif/tools

go 1.22
