// Code generated by vfcheck -gen. DO NOT EDIT.

package ct

import real "github.com/google/certificate-transparency-go"

type APIEndpoint = real.APIEndpoint
type ASN1Cert = real.ASN1Cert
const AddChainPath = real.AddChainPath
type AddChainRequest = real.AddChainRequest
type AddChainResponse = real.AddChainResponse
const AddChainStr = real.AddChainStr
const AddJSONPath = real.AddJSONPath
type AddJSONRequest = real.AddJSONRequest
const AddPreChainPath = real.AddPreChainPath
const AddPreChainStr = real.AddPreChainStr
var AllowVerificationWithNonCompliantKeys = real.AllowVerificationWithNonCompliantKeys
type AuditPath = real.AuditPath
type CTExtensions = real.CTExtensions
type CertificateChain = real.CertificateChain
type CertificateChainHash = real.CertificateChainHash
type CertificateTimestamp = real.CertificateTimestamp
const CertificateTimestampSignatureType = real.CertificateTimestampSignatureType
type ConsistencyProof = real.ConsistencyProof
var CreateX509MerkleTreeLeaf = real.CreateX509MerkleTreeLeaf
type DigitallySigned = real.DigitallySigned
const GetEntriesPath = real.GetEntriesPath
type GetEntriesResponse = real.GetEntriesResponse
const GetEntriesStr = real.GetEntriesStr
const GetEntryAndProofPath = real.GetEntryAndProofPath
type GetEntryAndProofResponse = real.GetEntryAndProofResponse
const GetEntryAndProofStr = real.GetEntryAndProofStr
const GetProofByHashPath = real.GetProofByHashPath
type GetProofByHashResponse = real.GetProofByHashResponse
const GetProofByHashStr = real.GetProofByHashStr
const GetRootsPath = real.GetRootsPath
type GetRootsResponse = real.GetRootsResponse
const GetRootsStr = real.GetRootsStr
const GetSTHConsistencyPath = real.GetSTHConsistencyPath
type GetSTHConsistencyResponse = real.GetSTHConsistencyResponse
const GetSTHConsistencyStr = real.GetSTHConsistencyStr
const GetSTHPath = real.GetSTHPath
type GetSTHResponse = real.GetSTHResponse
const GetSTHStr = real.GetSTHStr
var IsPreIssuer = real.IsPreIssuer
type JSONDataEntry = real.JSONDataEntry
type LeafEntry = real.LeafEntry
var LeafHashForLeaf = real.LeafHashForLeaf
type LeafInput = real.LeafInput
type LogEntry = real.LogEntry
var LogEntryFromLeaf = real.LogEntryFromLeaf
type LogEntryType = real.LogEntryType
type LogID = real.LogID
type MerkleLeafType = real.MerkleLeafType
type MerkleTreeLeaf = real.MerkleTreeLeaf
var MerkleTreeLeafForEmbeddedSCT = real.MerkleTreeLeafForEmbeddedSCT
var MerkleTreeLeafFromChain = real.MerkleTreeLeafFromChain
var MerkleTreeLeafFromRawChain = real.MerkleTreeLeafFromRawChain
type MerkleTreeNode = real.MerkleTreeNode
var NewSignatureVerifier = real.NewSignatureVerifier
type PreCert = real.PreCert
type PrecertChainEntry = real.PrecertChainEntry
type PrecertChainEntryHash = real.PrecertChainEntryHash
const PrecertLogEntryType = real.PrecertLogEntryType
type Precertificate = real.Precertificate
var PublicKeyFromB64 = real.PublicKeyFromB64
var PublicKeyFromPEM = real.PublicKeyFromPEM
type RawLogEntry = real.RawLogEntry
type SHA256Hash = real.SHA256Hash
var SerializeSCTSignatureInput = real.SerializeSCTSignatureInput
var SerializeSTHSignatureInput = real.SerializeSTHSignatureInput
type SignatureType = real.SignatureType
type SignatureVerifier = real.SignatureVerifier
type SignedCertificateTimestamp = real.SignedCertificateTimestamp
type SignedTreeHead = real.SignedTreeHead
var TimestampToTime = real.TimestampToTime
type TimestampedEntry = real.TimestampedEntry
const TimestampedEntryLeafType = real.TimestampedEntryLeafType
const TreeHashSignatureType = real.TreeHashSignatureType
type TreeHeadSignature = real.TreeHeadSignature
const TreeLeafPrefix = real.TreeLeafPrefix
const TreeNodePrefix = real.TreeNodePrefix
const V1 = real.V1
type Version = real.Version
const X509LogEntryType = real.X509LogEntryType
