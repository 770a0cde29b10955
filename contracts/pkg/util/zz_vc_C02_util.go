package util

func contract_C02_MarshalUint64(i uint64) {
	r := MarshalUint64(i)
	vEnsures("MarshalUint64.len", len(r) == 8)
	vEnsures("MarshalUint64.bytes", vForall(0, 8, func(k int) bool { return r[k] == byte(i>>uint(56-8*k)) }))
}
