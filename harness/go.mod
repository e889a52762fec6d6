module a.verif/vmon

go 1.23

godebug randseednop=0

require (
	github.com/fadhilkurnia/shamir v0.0.0
	github.com/klauspost/cpuid/v2 v2.0.9
	github.com/klauspost/reedsolomon v1.9.15
	github.com/starius/aesctrat v0.0.0-20220106011601-da278dad2aaa
)

replace github.com/fadhilkurnia/shamir => /repo
