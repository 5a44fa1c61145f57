package lumberjack

type Logger struct {
	Filename                    string
	MaxSize, MaxAge, MaxBackups int
	LocalTime, Compress         bool
}

func (l *Logger) Write(b []byte) (int, error) { return len(b), nil }
func (l *Logger) Close() error                { return nil }
func (l *Logger) Rotate() error               { return nil }
