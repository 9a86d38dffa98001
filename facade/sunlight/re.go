// Code generated by vfcheck -gen. DO NOT EDIT.

package sunlight

import real "filippo.io/sunlight"

var AppendTileLeaf = real.AppendTileLeaf
type Checkpoint = real.Checkpoint
type ClientConfig = real.ClientConfig
type Extensions = real.Extensions
var FormatCheckpoint = real.FormatCheckpoint
type LogEntry = real.LogEntry
var MarshalExtensions = real.MarshalExtensions
var NewRFC6962Verifier = real.NewRFC6962Verifier
var ParseCheckpoint = real.ParseCheckpoint
var ParseExtensions = real.ParseExtensions
var ParseTilePath = real.ParseTilePath
var ReadTileLeaf = real.ReadTileLeaf
const TileHeight = real.TileHeight
var TilePath = real.TilePath
const TileWidth = real.TileWidth
