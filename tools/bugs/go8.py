exec(open("/verif/tools/bugs/go3.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="csv-comment-lines", property="C14", needs="a line whose first cell begins with #",
 breaks="lines of CSV data that begin with # are taken for comments: their cells are missing and the synchronisation stops there",
 edits=[("pkg/handlers/csv.go", "	record, err := dec.Read()\n", "	record, err := readRecord(dec)\n"),
        ("pkg/handlers/csv.go", "func (c CSVHandler) handleCSVLine(", "func readRecord(dec *csv.Reader) ([]string, error) {\n	dec.Comment = '#'\n	return dec.Read()\n}\n\nfunc (c CSVHandler) handleCSVLine(")],
 demo={"demo_test.go": IMP + CSVIDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "a,b\\n#1,2\\n3,#4\\n"
	if err := sync(t, f, d); err != nil { t.Fatal(err) }
	if e := entries(t, f, d, "a", appendable.FieldTypeString); len(e) != 1 { t.Fatal(e) }
	if e := entries(t, f, d, "b", appendable.FieldTypeFloat64); len(e) != 1 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
dict(id="search-name-fold", property="C09", needs="a search field and another field whose names differ only in case",
 breaks="the values of a field that was not named as a search field are split into n-grams",
 edits=[("pkg/appendable/index_file.go", "		if fieldName == sh {\n", "		if strings.EqualFold(fieldName, sh) {\n"),
        ("pkg/appendable/index_file.go", '	"io"\n	"time"\n', '	"io"\n	"strings"\n	"time"\n')],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := `{"name":"abc","NAME":"xyz"}` + "\\n"
	if err := sync(t, f, d, "name"); err != nil { t.Fatal(err) }
	if e := entries(t, f, d, "name", appendable.FieldTypeTrigram); len(e) != 1 { t.Fatal(e) }
	if e := entries(t, f, d, "NAME", appendable.FieldTypeTrigram); len(e) != 0 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
]
