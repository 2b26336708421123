package hx

import "github.com/wenerme/go-miniquery/zzverif/sx"

// ---- C23: ent SQL: names

// isUpper and lowerOf do not fork.
func isUpper(b byte) bool { return sx.And(b >= 'A', b <= 'Z') }

func lowerOf(b byte) byte { return byte(sx.IteInt(isUpper(b), int(b)+32, int(b))) }

// snakeOf: got is the column that name stands for.
func snakeOf(name, got string) bool {
	up := false
	for i := 0; i < len(name); i++ {
		up = sx.Or(up, isUpper(name[i]))
	}
	if !up {
		return sx.StrEq(name, got)
	}
	// same letters and digits in lower case, underscores only added
	j, ok := 0, true
	for i := 0; i < len(got); i++ {
		if got[i] == '_' && (j >= len(name) || name[j] != '_') {
			// words are split: not at the ends, not twice
			ok = sx.And(ok, j > 0 && j < len(name) && got[i-1] != '_')
			continue
		}
		if j >= len(name) {
			return false
		}
		ok = sx.And(ok, got[i] == lowerOf(name[j]))
		j++
	}
	return sx.And(ok, j == len(name))
}

var entNamePlaces = []struct {
	pre, post string
	n         int // how often the name may appear
}{
	{"", " = 1", 1}, {"1 = ", "", 1}, {"", " is null", 1}, {"", " in [1,2]", 1}, {"not ", " like 'x' or date('y') = 1", 1}, {"", " between 1 and 2", 2},
	{"date(", ") = 'x'", 1}, {"(", ")", 1}, {"has_edge(pets, ", " = 1)", 1}, {"has_edge(parent, 1 = 1 and not (", " is not null))", 1}, {"has_edge(joinedGroups, has_edge(members, ", " = 1))", 1},
}

// entName converts name at a place and says which column it became.
func entName(name string, place int, c entCfg) string {
	p := entNamePlaces[place]
	r := entSQL(p.pre+name+p.post, c)
	sx.Assert(r.err == nil, "query refused")
	sx.Obs(r.sql)
	got, n := "", 0
	base := entSQL(p.pre+"zz"+p.post, c)
	sx.Assert(base.err == nil, "query refused")
	sx.Assert(len(r.ts) == len(base.ts), "another name changes the statement: "+r.sql)
	for i, t := range base.ts {
		if t.k == "id" && t.s == "zz" {
			sx.Assert(r.ts[i].k == "id", "name is not quoted: "+r.sql)
			if n > 0 {
				sx.Assert(sx.StrEq(got, r.ts[i].s), "one name became two columns: "+r.sql)
			}
			got = r.ts[i].s
			n++
			continue
		}
		sx.Assert(r.ts[i].k == t.k && r.ts[i].s == t.s && r.ts[i].n == t.n, "another name changes the statement: "+r.sql)
	}
	sx.Assert(n > 0 && n <= p.n, "name is missing: "+r.sql)
	return got
}

// C23_Short: every identifier of up to N characters.
func C23_Short() {
	s := ident(sx.Param("N", 3))
	ref, _ := refParse(s)
	sx.Assume(ref != nil && ref.k == "id")
	place := []int{0, 2, 9}[sx.Choice(sx.Param("P", 3))]
	sx.Assert(snakeOf(s, entName(s, place, pickCfg(1))), "name is not the column: "+s)
}

var entColumns = []struct{ name, col string }{
	{"a", "a"}, {"A", "a"}, {"full_name", "full_name"}, {"fullName", "full_name"}, {"FullName", "full_name"}, {"ID", "id"}, {"userID", "user_id"}, {"activityType", "activity_type"},
	{"createdAt", "created_at"}, {"i18n", "i18n"}, {"b2b", "b2b"}, {"x2y2", "x2y2"}, {"address1", "address1"}, {"address_1", "address_1"}, {"utf8mb4", "utf8mb4"}, {"p2p_id", "p2p_id"},
	{"sha256sum", "sha256sum"}, {"is_24h", "is_24h"}, {"a__b", "a__b"}, {"a_", "a_"}, {"orders", "orders"}, {"inbox", "inbox"}, {"is_active", "is_active"}, {"android", "android"}, {"users_id", "users_id"},
	{"a_very_long_column_name_with_more_than_sixty_three_characters_in_it", "a_very_long_column_name_with_more_than_sixty_three_characters_in_it"},
}

// C23_Places: names at every place, in every configuration.
func C23_Places() {
	c := entColumns[sx.Choice(len(entColumns))]
	got := entName(c.name, sx.Choice(len(entNamePlaces)), pickCfg(sx.Param("cfg", 8)))
	sx.Assert(got == c.col, "name is not the column: "+c.name+" became "+got)
}

// C23_Long: a long name with N symbolic characters in its middle.
func C23_Long() {
	if sx.Param("long", 0) == 1 {
		n := []int{31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 1025}[sx.Choice(12)]
		b := []byte{'k'}
		unit := []string{"a", "a_", "9", "x2_y", "aB", "X"}[sx.Choice(6)]
		for len(b) < n {
			b = append(b, unit...)
		}
		b = b[:n]
		for _, i := range []int{1, n / 2, n - 1} {
			b[i] = sx.Byte()
			sx.Assume(idByte(b[i]))
		}
		s := string(b)
		sx.Assert(snakeOf(s, entName(s, sx.Choice(sx.Param("P", 2)), pickCfg(1))), "name is not the column: "+s)
		return
	}
	s := []string{"account_", "a1_", "longer2"}[sx.Choice(3)] + ident(sx.Param("N", 2)) + []string{"", "_by", "9x"}[sx.Choice(3)]
	sx.Assert(snakeOf(s, entName(s, sx.Choice(sx.Param("P", 2)), pickCfg(1))), "name is not the column: "+s)
}
