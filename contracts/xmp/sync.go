//go:build go1.21

package xmp

import (
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// the documented flag sets, as six single bits
const (
	spec_bCreate = 1 << iota
	spec_bReplace
	spec_bDelete
	spec_bAppend
	spec_bUnique
	spec_bNofail
)

// spec_flagSet: the documented combination behind each name, 0 for other names.
func spec_flagSet(name string) int {
	switch name {
	case "create":
		return spec_bCreate
	case "replace":
		return spec_bReplace
	case "delete":
		return spec_bDelete
	case "append":
		return spec_bAppend
	case "unique":
		return spec_bUnique
	case "nofail":
		return spec_bNofail
	case "default":
		return spec_bCreate | spec_bReplace | spec_bDelete | spec_bUnique
	case "merge":
		return spec_bCreate | spec_bUnique | spec_bNofail
	case "extend":
		return spec_bCreate | spec_bReplace | spec_bUnique | spec_bNofail
	case "add":
		return spec_bCreate | spec_bUnique | spec_bNofail
	}
	return 0
}

// spec_flagBit: bit number k of the set behind a name.
func spec_flagBit(name string, k int) bool {
	switch k {
	case 0:
		return name == "create" || name == "default" || name == "merge" || name == "extend" || name == "add"
	case 1:
		return name == "replace" || name == "default" || name == "extend"
	case 2:
		return name == "delete" || name == "default"
	case 3:
		return name == "append"
	case 4:
		return name == "unique" || name == "default" || name == "merge" || name == "extend" || name == "add"
	case 5:
		return name == "nofail" || name == "merge" || name == "extend" || name == "add"
	}
	return false
}

//vf:verify ParseSyncFlag
//vf:property P06
func spec_ParseSyncFlag(s string) {
	vf.Pure()
	r := ParseSyncFlag(s)
	vf.Ensures("documented-set", int(r) == spec_flagSet(s))
	vf.Ensures("bits", r >= 0 && r < 64)
}

//vf:lemma
//vf:property P06
func lemma_Flags_constants() {
	vf.Ensures("single-bits", CREATE == spec_bCreate && REPLACE == spec_bReplace && DELETE == spec_bDelete &&
		APPEND == spec_bAppend && UNIQUE == spec_bUnique && NOFAIL == spec_bNofail)
	vf.Ensures("default", DEFAULT == CREATE+REPLACE+DELETE+UNIQUE)
	vf.Ensures("merge", MERGE == CREATE+UNIQUE+NOFAIL)
	vf.Ensures("extend", EXTEND == CREATE+REPLACE+UNIQUE+NOFAIL)
	vf.Ensures("add", ADD == CREATE+UNIQUE+NOFAIL)
}

func spec_known(name string) bool {
	return spec_flagBit(name, 0) || spec_flagBit(name, 1) || spec_flagBit(name, 2) || spec_flagBit(name, 3) || spec_flagBit(name, 4) || spec_flagBit(name, 5)
}

func spec_partsHave(parts []string, n int, k int) bool {
	return vf.Exists(0, n, func(i int) bool { return spec_flagBit(strings.ToLower(parts[i]), k) })
}

func gen_flagText(g *vf.Gen) string {
	words := []string{"create", "replace", "delete", "append", "unique", "nofail", "default", "merge", "extend", "add", "Create", "MERGE", "bogus", "", " ", "create "}
	s := ""
	for n := g.N(4); n >= 0; n-- {
		if s != "" {
			s += ","
		}
		if g.Chance(90) {
			s += words[g.N(10)]
		} else {
			s += words[g.N(len(words))]
		}
	}
	return s
}

func args_spec_ParseSyncFlags(g *vf.Gen) string {
	if g.Chance(10) {
		return g.Str()
	}
	return gen_flagText(g)
}

func args_spec_SyncFlags_UnmarshalText(g *vf.Gen) (*SyncFlags, []byte) {
	f := SyncFlags(g.N(64))
	return &f, []byte(args_spec_ParseSyncFlags(g))
}

//vf:verify ParseSyncFlags
//vf:property P06
//vf:inline ParseSyncFlag
func spec_ParseSyncFlags(s string) {
	parts := strings.Split(s, ",")
	vf.LoopInv(func(flags SyncFlags) bool { return flags >= 0 && flags < 64 })
	vf.LoopInv(func(k int) bool {
		return vf.Forall(0, k, func(j int) bool { return spec_known(strings.ToLower(parts[j])) })
	})
	vf.LoopInv(func(k int, flags SyncFlags) bool { return (flags&CREATE != 0) == spec_partsHave(parts, k, 0) })
	vf.LoopInv(func(k int, flags SyncFlags) bool { return (flags&REPLACE != 0) == spec_partsHave(parts, k, 1) })
	vf.LoopInv(func(k int, flags SyncFlags) bool { return (flags&DELETE != 0) == spec_partsHave(parts, k, 2) })
	vf.LoopInv(func(k int, flags SyncFlags) bool { return (flags&APPEND != 0) == spec_partsHave(parts, k, 3) })
	vf.LoopInv(func(k int, flags SyncFlags) bool { return (flags&UNIQUE != 0) == spec_partsHave(parts, k, 4) })
	vf.LoopInv(func(k int, flags SyncFlags) bool { return (flags&NOFAIL != 0) == spec_partsHave(parts, k, 5) })
	r, err := ParseSyncFlags(s)
	n := len(parts)
	vf.Ensures("error-iff-unknown-part", (err != nil) == vf.Exists(0, n, func(i int) bool { return !spec_known(strings.ToLower(parts[i])) }))
	vf.Ensures("no-flags-on-error", err == nil || r == 0)
	vf.Ensures("no-other-bits", r >= 0 && r < 64)
	vf.Ensures("create", err != nil || (r&CREATE != 0) == spec_partsHave(parts, n, 0))
	vf.Ensures("replace", err != nil || (r&REPLACE != 0) == spec_partsHave(parts, n, 1))
	vf.Ensures("delete", err != nil || (r&DELETE != 0) == spec_partsHave(parts, n, 2))
	vf.Ensures("append", err != nil || (r&APPEND != 0) == spec_partsHave(parts, n, 3))
	vf.Ensures("unique", err != nil || (r&UNIQUE != 0) == spec_partsHave(parts, n, 4))
	vf.Ensures("nofail", err != nil || (r&NOFAIL != 0) == spec_partsHave(parts, n, 5))
}

//vf:verify (*SyncFlags).UnmarshalText
//vf:property P06
func spec_SyncFlags_UnmarshalText(f *SyncFlags, data []byte) {
	vf.Requires(f != nil)
	old := *f
	parts := strings.Split(string(data), ",")
	empty := len(data) == 0
	vf.Modifies(f)
	err := f.UnmarshalText(data)
	n := len(parts)
	vf.Ensures("empty-clears", !empty || err == nil && *f == 0)
	vf.Ensures("error-iff-unknown-part", empty || (err != nil) == vf.Exists(0, n, func(i int) bool { return !spec_known(strings.ToLower(parts[i])) }))
	vf.Ensures("kept-on-error", err == nil || *f == old)
	ok := !empty && err == nil
	vf.Ensures("no-other-bits", !ok || *f >= 0 && *f < 64)
	vf.Ensures("create", !ok || (*f&CREATE != 0) == spec_partsHave(parts, n, 0))
	vf.Ensures("replace", !ok || (*f&REPLACE != 0) == spec_partsHave(parts, n, 1))
	vf.Ensures("delete", !ok || (*f&DELETE != 0) == spec_partsHave(parts, n, 2))
	vf.Ensures("append", !ok || (*f&APPEND != 0) == spec_partsHave(parts, n, 3))
	vf.Ensures("unique", !ok || (*f&UNIQUE != 0) == spec_partsHave(parts, n, 4))
	vf.Ensures("nofail", !ok || (*f&NOFAIL != 0) == spec_partsHave(parts, n, 5))
}
