// props: *

package zz_verifh

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"
)

// Report reads the data embedded in a report.
func Report(path string) (map[string]interface{}, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	s := string(b)
	i := strings.Index(s, "window.grParam = ")
	if i < 0 {
		return nil, fmt.Errorf("no data in the report")
	}
	var m map[string]interface{}
	d := json.NewDecoder(strings.NewReader(s[i+len("window.grParam = "):]))
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	return m, nil
}

// At walks into decoded JSON.
func At(v interface{}, path ...string) interface{} {
	for _, p := range path {
		m, _ := v.(map[string]interface{})
		v = m[p]
	}
	return v
}

// JSON round-trips a value.
func JSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var out interface{}
	_ = json.Unmarshal(b, &out)
	return out
}

// NoReport fails unless the run failed and left the path as it was.
func NoReport(t *testing.T, in interface{}, err error, path, before string) {
	t.Helper()
	if err == nil {
		Fail(t, in, "no error")
	}
	b, rerr := os.ReadFile(path)
	if before == "" && rerr == nil {
		Fail(t, in, "a report was written although the run failed with: %v", err)
	}
	if before != "" && string(b) != before {
		Fail(t, in, "the existing file was overwritten although the run failed with: %v", err)
	}
}
