// props: *

package zz_verifv

import (
	"strings"

	"github.com/mrasu/GravityR/database/mysql/mmodel"
	"github.com/mrasu/GravityR/database/postgres/pmodel"
	"gopkg.in/guregu/null.v4"
)

type view map[string]interface{}

func f(x null.Float) interface{} {
	if !x.Valid {
		return nil
	}
	return x.Float64
}

func i(x null.Int) interface{} {
	if !x.Valid {
		return nil
	}
	return x.Int64
}

func list(vs []view) interface{} {
	if len(vs) == 0 {
		return nil
	}
	return vs
}


// MyView is what the report has to show for a MySQL plan.
func MyView(t *mmodel.ExplainAnalyzeTree) interface{} { return list(myNodes(t.Root.Children)) }

func myNodes(ns []*mmodel.ExplainAnalyzeTreeNode) []view {
	var out []view
	for _, n := range ns {
		l := n.AnalyzeResultLine
		out = append(out, view{
			"text": l.Text, "title": l.Title(), "tableName": l.TableName,
			"estimatedInitCost": f(l.EstimatedInitCost), "estimatedCost": f(l.EstimatedCost), "estimatedReturnedRows": i(l.EstimatedReturnedRows),
			"actualTimeFirstRow": f(l.ActualTimeFirstRow), "actualTimeAvg": f(l.ActualTimeAvg),
			"actualReturnedRows": i(l.ActualReturnedRows), "actualLoopCount": i(l.ActualLoopCount),
			"children": list(myNodes(n.Children)),
		})
	}
	return out
}

// PgView is what the report has to show for a PostgreSQL plan.
func PgView(t *pmodel.ExplainAnalyzeTree) interface{} { return list(pgNodes(t.Root.Children)) }

func pgNodes(ns []*pmodel.ExplainAnalyzeTreeNode) []view {
	var out []view
	for _, n := range ns {
		l := n.AnalyzeResultNode
		out = append(out, view{
			"text": strings.Join(l.Lines, "\n"), "title": l.Title(), "tableName": l.TableName,
			"estimatedInitCost": f(l.EstimatedInitCost), "estimatedCost": f(l.EstimatedCost), "estimatedReturnedRows": i(l.EstimatedReturnedRows),
			"estimatedWidth":     i(l.EstimatedWidth),
			"actualTimeFirstRow": f(l.ActualTimeFirstRow), "actualTimeAvg": f(l.ActualTimeAvg),
			"actualReturnedRows": i(l.ActualReturnedRows), "actualLoopCount": i(l.ActualLoopCount),
			"children": list(pgNodes(n.Children)),
		})
	}
	return out
}
