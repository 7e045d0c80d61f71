module zz.test

go 1.24
