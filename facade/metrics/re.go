// Code generated by vfcheck -gen. DO NOT EDIT.

package metrics

import real "github.com/hashicorp/go-metrics"

type AggregateSample = real.AggregateSample
type BlackholeSink = real.BlackholeSink
type Config = real.Config
var Default = real.Default
var DefaultInmemSignal = real.DefaultInmemSignal
const DefaultSignal = real.DefaultSignal
type Encoder = real.Encoder
type FanoutSink = real.FanoutSink
type GaugeValue = real.GaugeValue
type InmemSignal = real.InmemSignal
type InmemSink = real.InmemSink
type IntervalMetrics = real.IntervalMetrics
type Label = real.Label
type MetricSink = real.MetricSink
type Metrics = real.Metrics
type MetricsSummary = real.MetricsSummary
var New = real.New
var NewInmemSignal = real.NewInmemSignal
var NewInmemSink = real.NewInmemSink
var NewInmemSinkFromURL = real.NewInmemSinkFromURL
var NewIntervalMetrics = real.NewIntervalMetrics
var NewMetricSinkFromURL = real.NewMetricSinkFromURL
var NewStatsdSink = real.NewStatsdSink
var NewStatsdSinkFromURL = real.NewStatsdSinkFromURL
var NewStatsiteSink = real.NewStatsiteSink
var NewStatsiteSinkFromURL = real.NewStatsiteSinkFromURL
type PointValue = real.PointValue
type PrecisionGaugeMetricSink = real.PrecisionGaugeMetricSink
type PrecisionGaugeValue = real.PrecisionGaugeValue
type SampledValue = real.SampledValue
var SetPrecisionGauge = real.SetPrecisionGauge
var SetPrecisionGaugeWithLabels = real.SetPrecisionGaugeWithLabels
var Shutdown = real.Shutdown
type ShutdownSink = real.ShutdownSink
type StatsdSink = real.StatsdSink
type StatsiteSink = real.StatsiteSink
var UpdateFilter = real.UpdateFilter
var UpdateFilterAndLabels = real.UpdateFilterAndLabels
