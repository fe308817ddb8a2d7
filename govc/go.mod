module govc

go 1.26
