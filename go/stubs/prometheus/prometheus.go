package prometheus

import (
	"net/http"

	"go.opencensus.io/stats/view"
)

type Options struct {
	Namespace string
	OnError   func(error)
}
type Exporter struct{}

func NewExporter(Options) (*Exporter, error)                   { return &Exporter{}, nil }
func (e *Exporter) ServeHTTP(http.ResponseWriter, *http.Request) {}
func (e *Exporter) ExportView(*view.Data)                      {}
