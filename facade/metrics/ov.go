package metrics

import "time"

func IncrCounter(key []string, val float32)                           {}
func IncrCounterWithLabels(key []string, val float32, labels []Label) {}
func SetGauge(key []string, val float32)                              {}
func SetGaugeWithLabels(key []string, val float32, labels []Label)    {}
func EmitKey(key []string, val float32)                               {}
func AddSample(key []string, val float32)                             {}
func AddSampleWithLabels(key []string, val float32, labels []Label)   {}
func MeasureSince(key []string, start time.Time)                      {}
func MeasureSinceWithLabels(key []string, start time.Time, l []Label) {}

func NewGlobal(conf *Config, sink MetricSink) (*Metrics, error) { return nil, nil }
func DefaultConfig(serviceName string) *Config                  { return &Config{ServiceName: serviceName} }
