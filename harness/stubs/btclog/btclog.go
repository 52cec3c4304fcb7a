// Package btclog is a do-nothing stand-in for the logging module btcd's
// txscript imports (the real module is not in the offline module cache).
package btclog

type Logger interface {
	Tracef(format string, params ...interface{})
	Debugf(format string, params ...interface{})
	Infof(format string, params ...interface{})
	Warnf(format string, params ...interface{})
	Errorf(format string, params ...interface{})
	Criticalf(format string, params ...interface{})
	Trace(v ...interface{})
	Debug(v ...interface{})
	Info(v ...interface{})
	Warn(v ...interface{})
	Error(v ...interface{})
	Critical(v ...interface{})
}

type nop struct{}

func (nop) Tracef(string, ...interface{})    {}
func (nop) Debugf(string, ...interface{})    {}
func (nop) Infof(string, ...interface{})     {}
func (nop) Warnf(string, ...interface{})     {}
func (nop) Errorf(string, ...interface{})    {}
func (nop) Criticalf(string, ...interface{}) {}
func (nop) Trace(...interface{})             {}
func (nop) Debug(...interface{})             {}
func (nop) Info(...interface{})              {}
func (nop) Warn(...interface{})              {}
func (nop) Error(...interface{})             {}
func (nop) Critical(...interface{})          {}

var Disabled Logger = nop{}
