package util

// Decoding a text terminates without a panic, whatever it is.
func contract_C18_ParseKVText(txt []byte) {
	n := len(txt)
	vInvariant("the current item", func(kv, i int) bool { return 0 <= kv && kv <= i && i <= n })
	vInvariant("its separator", func(kv, sep, i int) bool { return -1 <= sep && sep < i || sep < kv })
	m := ParseKVText(txt)
	vEnsures("text.is decoded", m != nil)
}

// So does encoding.
func contract_C18_MarshalKVText(kv []KeyValue) {
	MarshalKVText(kv)
}
