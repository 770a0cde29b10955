package util

// c15Text describes the items of a text by recursion over its positions. An item is the text up to a NUL; the part
// before its first '=' is its key, which is not empty.
type c15Text struct {
	start []int  // where the item that the position belongs to begins
	sep   []int  // the first '=' of that item before the position, -1 if there is none
	same  []bool // whether the bytes from start to sep are those of the key x
	diff  []int  // where they are not
	has   []bool // whether an item with the key x ends before the position
	from  []int  // where the value of the last such item begins
	size  []int  // and its length
}

func c15Start(t c15Text, n int) bool {
	return n < 1<<40 && len(t.start) == n+1 && len(t.sep) == n+1 && len(t.same) == n+1 && len(t.diff) == n+1 &&
		len(t.has) == n+1 && len(t.from) == n+1 && len(t.size) == n+1 &&
		t.start[0] == 0 && t.sep[0] == -1 && !t.has[0]
}

func c15Next(txt []byte, x string, t c15Text, e int) bool {
	if e < 0 || e >= len(txt) {
		return true
	}
	k, s := t.start[e], t.sep[e]
	step := t.start[e+1] == k && t.sep[e+1] == s
	if txt[e] == 0 {
		step = t.start[e+1] == e+1 && t.sep[e+1] == -1
	} else if s < 0 && txt[e] == '=' {
		step = t.start[e+1] == k && t.sep[e+1] == e
	}
	found := t.has[e+1] == t.has[e] && t.from[e+1] == t.from[e] && t.size[e+1] == t.size[e]
	if txt[e] == 0 && s > k && t.same[e] {
		found = t.has[e+1] && t.from[e+1] == s+1 && t.size[e+1] == e-s-1
	}
	is := s-k == len(x) && vForall(0, len(x), func(j int) bool { return txt[k+j] == x[j] })
	if !t.same[e] {
		d := t.diff[e]
		is = s-k != len(x) || 0 <= d && d < len(x) && txt[k+d] != x[d]
	}
	return step && found && is
}

// Decoding yields for every key the value of its last item, and no key without an item.
func contract_C15_ParseKVText(txt []byte, x string, t c15Text, j int) {
	n := len(txt)
	vRequires(c15Start(t, n))
	vInvariant("the current item", func(kv, i int) bool {
		vDefinition(c15Next(txt, x, t, i))
		return 0 <= i && i <= n && kv == t.start[i] && 0 <= kv && kv <= i
	})
	vInvariant("its separator", func(kv, sep, i int) bool {
		return sep < i && -1 <= sep && (sep < kv && t.sep[i] == -1 || sep >= kv && t.sep[i] == sep)
	})
	vInvariant("the key is known if it has an item", func(m map[string]string, i int) bool {
		_, ok := m[x]
		return ok == t.has[i]
	})
	vInvariant("the length of its value", func(m map[string]string, i int) bool {
		return !t.has[i] || len(m[x]) == t.size[i] && 0 <= t.from[i] && 0 <= t.size[i] && t.from[i]+t.size[i] < i
	})
	vInvariant("its value", func(m map[string]string, i int) bool {
		return !t.has[i] || j < 0 || j >= t.size[i] || m[x][j] == txt[t.from[i]+j]
	})
	m := ParseKVText(txt)
	v, ok := m[x]
	vEnsures("a key is decoded exactly if an item has it", ok == t.has[n])
	if ok {
		vEnsures("the value is as long as that of the last item", len(v) == t.size[n])
		vEnsures("the value is that of the last item", j < 0 || j >= len(v) || v[j] == txt[t.from[n]+j])
	}
}

// The encoding of a list of pairs: at[k] is where pair k begins.
func c15At(kv []KeyValue, at []int, k int) bool {
	return k < 0 || k >= len(kv) || at[k+1] == at[k]+len(kv[k].Key)+len(kv[k].Value)+2 && 0 <= at[k] && at[k] < 1<<40
}

// Encoding yields key, '=', value and NUL of every pair, one after another, and nothing else.
func contract_C15_MarshalKVText(kv []KeyValue, at []int, k, q int) {
	n := len(kv)
	vRequires(len(at) == n+1 && at[0] == 0 && 0 <= k && k < n)
	vDefinition(c15At(kv, at, k))
	key, val := kv[k].Key, kv[k].Value
	from, end := at[k], at[k+1]
	mid := from + len(key)
	inKey, inVal := from <= q && q < mid, mid < q && q < end-1
	vInvariant("the pairs before have been encoded", func(data []byte, i int) bool {
		vDefinition(c15At(kv, at, i))
		return 0 <= i && i <= n && len(data) == at[i]
	})
	vInvariant("pair k lies before", func(data []byte, i int) bool { return i <= k || end <= len(data) })
	vInvariant("its key", func(data []byte, i int) bool { return i <= k || !inKey || data[q] == key[q-from] })
	vInvariant("its separator", func(data []byte, i int) bool { return i <= k || q != mid || data[q] == '=' })
	vInvariant("its value", func(data []byte, i int) bool { return i <= k || !inVal || data[q] == val[q-mid-1] })
	vInvariant("its end", func(data []byte, i int) bool { return i <= k || q != end-1 || data[q] == 0 })
	data := MarshalKVText(kv)
	vEnsures("nothing but the pairs", len(data) == at[n] && end <= len(data))
	vEnsures("the key of every pair", !inKey || data[q] == key[q-from])
	vEnsures("the separator of every pair", q != mid || data[q] == '=')
	vEnsures("the value of every pair", !inVal || data[q] == val[q-mid-1])
	vEnsures("the end of every pair", q != end-1 || data[q] == 0)
}
