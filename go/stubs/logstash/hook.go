package logrustash

import (
	"errors"

	"github.com/sirupsen/logrus"
)

type Hook struct{ TimeFormat string }

func NewHook(network, addr, app string) (*Hook, error) { return nil, errors.New("not available") }
func (h *Hook) Levels() []logrus.Level               { return nil }
func (h *Hook) Fire(*logrus.Entry) error              { return nil }
