package inidb

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"strings"

	"github.com/companyzero/zkc/zzv"
	"github.com/vaughan0/go-ini"
)

// What an ini file can hold: a text that reads back unaltered.
func zzValue(s string) bool {
	return s == strings.TrimSpace(s) && !strings.Contains(s, "\n")
}
func zzTable(s string) bool { return zzValue(s) && !strings.Contains(s, "=") }
func zzKey(s string) bool {
	return s != "" && zzTable(s) && s[0] != '#' && s[0] != ';'
}

// --- records in memory

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvSet(i *INIDB, table, key, value, t2, k2 string) {
	s0, had := i.tables[table]
	old := zzv.Snap(i)
	o2, h2 := i.tables[t2][k2]
	zzv.Assume(t2 == table || !zzSameMap(i.tables[t2], s0))
	_, hT2 := i.tables[t2]
	err := i.Set(table, key, value)
	if err != nil {
		zzv.Assert("a refused record changes nothing", zzv.Same(i, old))
		zzv.Assert("a record is refused only without a table or when it cannot be stored", !had || !zzKey(key) || !zzValue(value))
		zzv.Reach("refused")
		return
	}
	zzv.Assert("a record needs its table", had)
	zzv.Assert("only records that can be stored are accepted", zzKey(key) && zzValue(value))
	got, ok := i.tables[table][key]
	zzv.Assert("the record holds exactly the value set", ok && got == value)
	zzv.Assert("a changed database is to be saved", i.dirty)
	if t2 != table || k2 != key {
		n2, ok2 := i.tables[t2][k2]
		zzv.Assert("other records are unaffected", ok2 == h2 && (!h2 || n2 == o2))
		zzv.Reach("other")
	}
	_, ok = i.tables[t2]
	zzv.Assert("tables are unaffected", ok == hT2)
	g, err := i.Get(table, key)
	zzv.Assert("the record reads back", err == nil && g == value)
	zzv.Reach("set")
}

func zzSameMap(a, b ini.Section) bool { return a != nil && zzv.Ident(a, b) }

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvGet(i *INIDB, table, key string) {
	old := zzv.Snap(i)
	want, had := i.tables[table][key]
	v, err := i.Get(table, key)
	if had {
		zzv.Assert("a record that is present reads back", err == nil && v == want)
		zzv.Reach("found")
	} else {
		zzv.Assert("an absent record is reported missing", err == ErrNotFound && v == "")
		zzv.Reach("missing")
	}
	zzv.Assert("reading changes nothing", zzv.Same(i, old))
}

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvDel(i *INIDB, table, key, t2, k2 string) {
	s0, had := i.tables[table]
	old := zzv.Snap(i)
	o2, h2 := i.tables[t2][k2]
	_, hT2 := i.tables[t2]
	zzv.Assume(t2 == table || !zzSameMap(i.tables[t2], s0))
	err := i.Del(table, key)
	if err != nil {
		zzv.Assert("a refused deletion changes nothing", !had && zzv.Same(i, old))
		zzv.Reach("refused")
		return
	}
	_, e2 := i.Get(table, key)
	zzv.Assert("a deleted record is reported missing", e2 == ErrNotFound)
	zzv.Assert("a changed database is to be saved", i.dirty)
	if t2 != table || k2 != key {
		n2, ok2 := i.tables[t2][k2]
		zzv.Assert("other records are unaffected", ok2 == h2 && (!h2 || n2 == o2))
		zzv.Reach("other")
	}
	_, ok := i.tables[t2]
	zzv.Assert("tables are unaffected", ok == hT2)
	zzv.Reach("deleted")
}

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvNewTable(i *INIDB, table, t2, k2 string) {
	zzv.Assume(i.tables != nil)
	s0, had := i.tables[table]
	zzv.Assume(!had || s0 != nil)
	old := zzv.Snap(i)
	o2, h2 := i.tables[t2][k2]
	_, hT2 := i.tables[t2]
	i.NewTable(table)
	_, ok := i.tables[table]
	if !ok {
		zzv.Assert("a table is refused only when it cannot be stored", !zzTable(table) && zzv.Same(i, old))
		zzv.Reach("refused")
		return
	}
	zzv.Assert("only tables that can be stored are added", had || zzTable(table))
	zzv.Assert("a changed database is to be saved", had || i.dirty)
	if had {
		zzv.Assert("an existing table is left alone", zzv.Ident(i.tables[table], s0))
	} else {
		zzv.Assert("a new table is empty", len(i.tables[table]) == 0)
		zzv.Assert("a record can be added to a new table", !zzKey(k2) || i.Set(table, k2, "") == nil)
		zzv.Reach("new")
	}
	if t2 != table {
		n2, ok2 := i.tables[t2][k2]
		_, nT2 := i.tables[t2]
		zzv.Assert("other tables are unaffected", nT2 == hT2 && ok2 == h2 && (!h2 || n2 == o2))
	}
	zzv.Reach("end")
}

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvDelTable(i *INIDB, table, t2, k2 string) {
	_, had := i.tables[table]
	old := zzv.Snap(i)
	o2, h2 := i.tables[t2][k2]
	_, hT2 := i.tables[t2]
	err := i.DelTable(table)
	if err != nil {
		zzv.Assert("a refused deletion changes nothing", !had && zzv.Same(i, old))
		zzv.Reach("refused")
		return
	}
	_, ok := i.tables[table]
	_, e2 := i.Get(table, k2)
	zzv.Assert("a deleted table has no records", !ok && e2 == ErrNotFound)
	zzv.Assert("a changed database is to be saved", i.dirty)
	if t2 != table {
		n2, ok2 := i.tables[t2][k2]
		_, nT2 := i.tables[t2]
		zzv.Assert("other tables are unaffected", nT2 == hT2 && ok2 == h2 && (!h2 || n2 == o2))
		zzv.Reach("other")
	}
	zzv.Reach("deleted")
}

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvRecords(i *INIDB, table, key, v string) {
	old := zzv.Snap(i)
	want, had := i.tables[table][key]
	m := i.Records(table)
	got, ok := m[key]
	zzv.Assert("the listed records are those of the table", ok == had && (!had || got == want))
	m[key] = v
	zzv.Assert("the list is a copy", zzv.Same(i, old))
	zzv.Reach("end")
}

//@ verify C12 C22 nopanic locks bounded="databases of at most 3 tables"
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
func zzvTables(i *INIDB, t string) {
	f := make(ini.File)
	for n := zzv.ChooseInt(0, 3); n > 0; n-- {
		f[zzv.FreshString("table")] = ini.Section{}
	}
	i.tables = f
	_, had := f[t]
	l := i.Tables()
	zzv.Assert("every table is listed once", len(l) == len(f))
	n := 0
	for _, x := range l {
		if x == t {
			n++
		}
	}
	zzv.Assert("the listed tables are those of the database", (n == 1) == had && n <= 1)
	zzv.Reach("end")
}

// --- the file

// zzdb is the database being saved, zzT/zzK an arbitrary record.  The text
// written is read back piece by piece: zzCur is the table in effect.
var (
	zzdb     *INIDB
	zzT, zzK string

	zzPend []string // pieces of the unfinished line
	zzCur  string
	zzHdr  bool // table zzT was written
	zzHave bool // record zzT/zzK was written

	zzOpen     bool // some of the text is still in memory
	zzLost     bool // some of the text could not be written
	zzTemp     string
	zzMade     bool
	zzMain     int // the database file: 0 missing, 1 previous contents, 2 new contents
	zzWas      int // at the beginning
	zzCopies   []string
	zzWhole    []byte
	zzOldBytes []byte
)

func zzStart(i *INIDB) {
	zzdb = i
	zzPend, zzCur = nil, ""
	zzHdr = zzT == ""
	zzHave, zzOpen, zzLost, zzMade = false, false, false, false
	zzMain, zzWas = 1, 1
	zzCopies = nil
	zzWhole = zzv.FreshBytes("text", -1)
	zzOldBytes = zzv.FreshBytes("old", -1)
}

func zzTrimL(s string) string {
	for s != "" && (s[0] == ' ' || s[0] == '\t' || s[0] == '\r') {
		s = s[1:]
	}
	return s
}
func zzTrimR(s string) string {
	for s != "" && (s[len(s)-1] == ' ' || s[len(s)-1] == '\t' || s[len(s)-1] == '\r') {
		s = s[:len(s)-1]
	}
	return s
}

// zzJoin is the text of the pieces without the blanks around it.
func zzJoin(p []string) string {
	r := ""
	for n, s := range p {
		if zzv.IsLit(s) {
			if n == 0 {
				s = zzTrimL(s)
			}
			if n == len(p)-1 {
				s = zzTrimR(s)
			}
		}
		r += s
	}
	return r
}

func zzRecord(k, v string) {
	got, ok := zzdb.tables[zzCur][k]
	zzv.Assert("every record written is a record of the table whose header precedes it", ok && got == v)
	zzHave = zzv.Or(zzHave, zzv.And(zzCur == zzT, k == zzK))
}

func zzHeader(n string) {
	_, ok := zzdb.tables[n]
	zzv.Assert("every table written is a table of the database", ok)
	zzCur = n
	zzHdr = zzv.Or(zzHdr, n == zzT)
}

// zzLine reads a line back: names and values have no line breaks, "=" or
// blanks where they would matter (zzvSet, zzvNewTable, zzLoadFile).
func zzLine(p []string) {
	if len(p) == 0 {
		return
	}
	first := p[0]
	lit := zzv.IsLit(first)
	if lit {
		first = zzTrimL(first)
		if first == "" && len(p) == 1 {
			return
		}
		if first != "" && (first[0] == '#' || first[0] == ';') {
			return
		}
	}
	for n, s := range p {
		if !zzv.IsLit(s) {
			continue
		}
		for j := 0; j < len(s); j++ {
			if s[j] == '=' {
				k := append(append([]string(nil), p[:n]...), s[:j])
				v := append([]string{s[j+1:]}, p[n+1:]...)
				zzRecord(zzJoin(k), zzJoin(v))
				return
			}
		}
	}
	last := p[len(p)-1]
	if lit && first != "" && first[0] == '[' && zzv.IsLit(last) {
		last = zzTrimR(last)
		if last != "" && last[len(last)-1] == ']' {
			if len(p) == 1 {
				zzHeader(zzJoin([]string{first[1 : len(zzTrimR(first))-1]}))
				return
			}
			q := append([]string{first[1:]}, p[1:len(p)-1]...)
			zzHeader(zzJoin(append(q, last[:len(last)-1])))
			return
		}
	}
	zzv.Assert("every line written reads back", false)
}

func zzEmit(s string) {
	segs := zzv.NSegs(s)
	for n := 0; n < segs; n++ {
		p := zzv.Seg(s, n)
		if !zzv.IsLit(p) {
			zzPend = append(zzPend[:len(zzPend):len(zzPend)], p)
			continue
		}
		at := 0
		for j := 0; j < len(p); j++ {
			if p[j] == '\n' {
				l := zzPend
				if j > at {
					l = append(l[:len(l):len(l)], p[at:j])
				}
				zzPend = nil
				zzLine(l)
				at = j + 1
			}
		}
		if at < len(p) {
			zzPend = append(zzPend[:len(zzPend):len(zzPend)], p[at:])
		}
	}
}

func zzOut(w io.Writer, s string) (int, error) {
	switch w.(type) {
	case *bufio.Writer, *bytes.Buffer, *strings.Builder:
		zzEmit(s)
		zzOpen = true
	default:
		if zzv.Choose() {
			zzLost = true
			return 0, zzv.NewErr()
		}
		zzEmit(s)
	}
	return len(s), nil
}

func zzFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return zzOut(w, fmt.Sprintf(format, a...))
}
func zzWriteString(w io.Writer, s string) (int, error)        { return zzOut(w, s) }
func zzBioWriteString(w *bufio.Writer, s string) (int, error) { return zzOut(w, s) }
func zzBufWriteString(w *bytes.Buffer, s string) (int, error) { return zzOut(w, s) }
func zzFileWriteString(w *os.File, s string) (int, error)     { return zzOut(w, s) }
func zzBufBytes(b *bytes.Buffer) []byte                       { return zzWhole }
func zzFileWrite(f *os.File, b []byte) (int, error) {
	if zzv.Choose() {
		zzLost = true
		return 0, zzv.NewErr()
	}
	if zzv.Ident(b, zzWhole) {
		zzOpen = false
		return len(b), nil
	}
	zzEmit(string(b))
	return len(b), nil
}
func zzBioNew(w io.Writer) *bufio.Writer { return new(bufio.Writer) }
func zzFlush(w *bufio.Writer) error {
	if zzv.Choose() {
		zzLost = true
		return zzv.NewErr()
	}
	zzOpen = false
	return nil
}
func zzClose(f *os.File) error {
	if zzv.Choose() {
		zzLost = true
		return zzv.NewErr()
	}
	return nil
}
func zzFileSync(f *os.File) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzTempFile(dir, pat string) (*os.File, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzv.Assert("one temporary file is used", !zzMade)
	zzMade = true
	zzTemp = zzv.FreshString("temp")
	zzv.Assume(zzTemp != zzdb.filename)
	return new(os.File), nil
}
func zzFileName(f *os.File) string { return zzTemp }

func zzCrash() {
	zzv.Assert("at every step the database file holds the previous or the complete new contents", zzMain == zzWas || zzMain == 2)
}

// zzIsTemp: the temporary file's name is not used by anything else.
func zzIsTemp(p string) bool {
	if zzMade && zzv.Ident(p, zzTemp) {
		return true
	}
	zzv.Assume(!zzMade || p != zzTemp)
	return false
}

func zzContents(p string) int {
	if zzIsTemp(p) {
		_, hasT := zzdb.tables[zzT]
		_, has := zzdb.tables[zzT][zzK]
		zzv.Assert("the new file is complete when it replaces the old one", !zzOpen && !zzLost && len(zzPend) == 0)
		zzv.Assert("every table is in the new file", !hasT || zzHdr)
		zzv.Assert("every record is in the new file", !has || zzHave)
		return 2
	}
	for _, c := range zzCopies {
		if c == p {
			return zzWas
		}
	}
	return 3
}

func zzRename(o, n string) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	if zzv.Ident(o, n) {
		return nil
	}
	isO, isN := o == zzdb.filename, n == zzdb.filename
	if isN {
		zzMain = zzContents(o)
	}
	if isO && !isN {
		if zzMain == zzWas {
			zzCopies = append(zzCopies[:len(zzCopies):len(zzCopies)], n)
		}
		zzMain = 0
	}
	zzCrash()
	return nil
}

func zzRemove(p string) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	if !zzIsTemp(p) && p == zzdb.filename {
		zzMain = 0
		zzCrash()
	}
	return nil
}

func zzReadFile(p string) ([]byte, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	if p == zzdb.filename && zzMain == zzWas {
		return zzOldBytes, nil
	}
	return zzv.FreshBytes("file", -1), nil
}

func zzWriteFile(p string, b []byte, m os.FileMode) error {
	if !zzIsTemp(p) && p == zzdb.filename {
		zzMain = 3
		zzCrash()
	}
	if zzv.Choose() {
		return zzv.NewErr()
	}
	if zzv.Ident(b, zzOldBytes) {
		zzCopies = append(zzCopies[:len(zzCopies):len(zzCopies)], p)
	}
	return nil
}

func zzLink(o, n string) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	if o == zzdb.filename && zzMain == zzWas {
		zzCopies = append(zzCopies[:len(zzCopies):len(zzCopies)], n)
	}
	return nil
}

var zzPruneErr error

// zzPrune is what prune promises (zzvPrune).
func zzPrune(i *INIDB) error {
	zzPruneErr = nil
	if zzv.Choose() {
		zzPruneErr = zzv.NewErr()
	}
	return zzPruneErr
}

//@ verify C12 C22 C23 nopanic locks
//@ opt guard=inidb.INIDB.tables/mtx guard=inidb.INIDB.dirty/mtx
//@ use fmt.Fprintf := zzFprintf
//@ use io.WriteString := zzWriteString
//@ use (*bufio.Writer).WriteString := zzBioWriteString
//@ use (*bytes.Buffer).WriteString := zzBufWriteString
//@ use (*os.File).WriteString := zzFileWriteString
//@ use (*bytes.Buffer).Bytes := zzBufBytes
//@ use (*os.File).Write := zzFileWrite
//@ use bufio.NewWriter := zzBioNew
//@ use (*bufio.Writer).Flush := zzFlush
//@ use (*os.File).Close := zzClose
//@ use (*os.File).Sync := zzFileSync
//@ use io/ioutil.TempFile := zzTempFile
//@ use (*os.File).Name := zzFileName
//@ use os.Rename := zzRename
//@ use os.Remove := zzRemove
//@ use os.Link := zzLink
//@ use io/ioutil.ReadFile := zzReadFile
//@ use io/ioutil.WriteFile := zzWriteFile
//@ use (*inidb.INIDB).prune := zzPrune
func zzvSave(i *INIDB, t, k string) {
	zzT, zzK = t, k
	zzStart(i)
	old := zzv.Snap(i.tables)
	dirty, created := i.dirty, i.created
	fn := i.filename
	// the record is known to be there or not
	v, has := i.tables[t][k]
	err := i.Save()
	zzv.Assert("saving changes no record", zzv.Same(i.tables, old) && i.filename == fn)
	w, has2 := i.tables[t][k]
	zzv.Assert("saving keeps every record", has == has2 && (!has || v == w))
	if err != nil {
		zzv.Assert("a failed save leaves the previous file intact", zzMain == 1 || (zzMain == 2 && zzPruneErr != nil))
		zzv.Assert("what was not saved is still to be saved", zzMain == 2 || i.dirty == dirty)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("a successful save has saved", zzMain == 2 || !dirty)
	zzv.Assert("a database without changes is not written", dirty || (zzMain == 1 && !zzMade))
	zzv.Assert("a saved database has no changes to save", !i.dirty)
	if dirty {
		zzv.Assert("the previous contents are kept as a backup", created || len(zzCopies) > 0)
		zzv.Reach("saved")
	}
	zzv.Reach("end")
}

// --- opening

var zzLoaded ini.File
var zzLoadErr error
var zzNewPath string

// zzLoadFile: a file that reads back without an error has only names and
// values as in zzTable, zzKey and zzValue; a missing file is empty.
func zzLoadFile(p string) (ini.File, error) {
	zzv.Assert("the named file is read", p == zzNewPath)
	if zzv.Choose() {
		zzLoadErr = nil
		f := make(ini.File)
		zzv.Havoc(&f)
		zzv.Assume(f != nil)
		s, ok := f[""]
		zzv.Assume(!ok || s != nil)
		zzLoaded = f
		return f, nil
	}
	zzLoadErr = zzv.NewErr()
	f := make(ini.File)
	if os.IsNotExist(zzLoadErr) {
		zzMain, zzWas = 0, 0
	} else {
		zzv.Havoc(&f)
		zzv.Assume(f != nil)
		s, ok := f[""]
		zzv.Assume(!ok || s != nil)
	}
	return f, zzLoadErr
}

func zzStat(p string) (os.FileInfo, error) {
	if zzv.Choose() {
		return nil, nil
	}
	return nil, zzv.NewErr()
}
func zzMkdirAll(p string, m os.FileMode) error {
	if zzv.Choose() {
		return nil
	}
	return zzv.NewErr()
}

//@ verify C12 C22 C23 nopanic locks
//@ use fmt.Fprintf := zzFprintf
//@ use io.WriteString := zzWriteString
//@ use (*bufio.Writer).WriteString := zzBioWriteString
//@ use (*bytes.Buffer).WriteString := zzBufWriteString
//@ use (*os.File).WriteString := zzFileWriteString
//@ use (*bytes.Buffer).Bytes := zzBufBytes
//@ use (*os.File).Write := zzFileWrite
//@ use bufio.NewWriter := zzBioNew
//@ use (*bufio.Writer).Flush := zzFlush
//@ use (*os.File).Close := zzClose
//@ use (*os.File).Sync := zzFileSync
//@ use io/ioutil.TempFile := zzTempFile
//@ use (*os.File).Name := zzFileName
//@ use os.Rename := zzRename
//@ use os.Remove := zzRemove
//@ use os.Link := zzLink
//@ use io/ioutil.ReadFile := zzReadFile
//@ use io/ioutil.WriteFile := zzWriteFile
//@ use (*inidb.INIDB).prune := zzPrune
//@ use github.com/vaughan0/go-ini.LoadFile := zzLoadFile
//@ use os.Stat := zzStat
//@ use os.MkdirAll := zzMkdirAll
func zzvNew(filename string, create bool, depth int, t, k string) {
	zzNewPath = filename
	zzT, zzK = t, k
	zzStart(&INIDB{filename: filename, tables: ini.File{"": ini.Section{}}})
	i, err := New(filename, create, depth)
	switch {
	case err == nil:
		zzv.Assert("a database opens with its own file and limit", i != nil && i.filename == filename && i.depth == depth)
		zzv.Assert("nothing is written when opening", zzMain == 1 && !zzMade)
		zzv.Assert("a freshly opened database has no changes to save", !i.dirty && !i.created)
		v, ok := i.tables[t][k]
		zzv.Assert("only a file that reads back opens", zzLoadErr == nil)
		w, has := zzLoaded[t][k]
		zzv.Assert("the database has exactly the records of the file", ok == has && (!has || v == w))
		_, hasT := zzLoaded[t]
		_, okT := i.tables[t]
		zzv.Assert("the database has exactly the tables of the file and the default table", okT == (hasT || t == ""))
		zzv.Reach("opened")
	case err == ErrCreated:
		zzv.Assert("a database is created only on demand and when there is none", create && os.IsNotExist(zzLoadErr))
		zzv.Assert("a created database is saved", zzMain == 2 && !i.dirty)
		zzv.Assert("a created database is empty", len(i.tables) == 1 && len(i.tables[""]) == 0 && i.tables[""] != nil && i.filename == filename && i.depth == depth)
		zzv.Reach("created")
	default:
		zzv.Assert("a failed open returns nothing", i == nil)
		zzv.Assert("a failed open leaves the file as it was", zzMain == zzWas || zzPruneErr != nil)
		zzv.Reach("failed")
	}
}

// --- pruning

var zzRemoved int

type zzInfo struct {
	os.FileInfo
	name string
}

func (z *zzInfo) Name() string { return z.name }

// up to 3 files in the directory
func zzReadDir(p string) ([]os.FileInfo, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	var d []os.FileInfo
	for n := zzv.ChooseInt(0, 3); n > 0; n-- {
		d = append(d, &zzInfo{name: zzv.FreshString("name")})
	}
	return d, nil
}

// zzPathJoin: a file of the database's directory is the database file only
// under its own name.
func zzPathJoin(e ...string) string {
	r := zzv.UFString("join", e[0], e[1])
	zzv.Assume(zzv.Or(r != zzdb.filename, e[0] != path.Dir(zzdb.filename), e[1] == path.Base(zzdb.filename)))
	return r
}

//@ verify C12 nopanic bounded="directories of at most 3 files"
//@ use io/ioutil.ReadDir := zzReadDir
//@ use os.Remove := zzRemove
//@ use path.Join := zzPathJoin
func zzvPrune(i *INIDB) {
	zzStart(i)
	zzv.Assume(i.depth < 1000)
	old := zzv.Snap(i)
	err := i.prune()
	zzv.Assert("pruning changes no record", zzv.Same(i, old))
	zzv.Assert("pruning never removes the database file", zzMain == 1)
	if err == nil {
		zzv.Reach("end")
	}
}

// --- what the users of a database assume (zzvNew, zzvSave)

// ZzOpen is an open database with arbitrary records.
func ZzOpen(filename string, depth int) *INIDB {
	f := make(ini.File)
	zzv.Havoc(&f)
	zzv.Assume(f != nil)
	s, ok := f[""]
	zzv.Assume(ok && s != nil)
	return &INIDB{filename: filename, depth: depth, tables: f}
}

// ZzNew is a database that was just created.
func ZzNew(filename string, depth int) *INIDB {
	return &INIDB{filename: filename, depth: depth, tables: ini.File{"": ini.Section{}}, created: true}
}

func (i *INIDB) ZzFile() string { return i.filename }
func (i *INIDB) ZzDirty() bool  { return i.dirty }
func (i *INIDB) ZzSaved()       { i.dirty = false }
