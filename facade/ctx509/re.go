// Code generated by vfcheck -gen. DO NOT EDIT.

package x509

import real "github.com/google/certificate-transparency-go/x509"

var AACompromise = real.AACompromise
const AACompromiseFlag = real.AACompromiseFlag
type ASIDRange = real.ASIDRange
type ASIdentifiers = real.ASIdentifiers
var AffiliationChanged = real.AffiliationChanged
const AffiliationChangedFlag = real.AffiliationChangedFlag
const BaselineRequirementsFailure = real.BaselineRequirementsFailure
var BuildPrecertTBS = real.BuildPrecertTBS
var CACompromise = real.CACompromise
const CACompromiseFlag = real.CACompromiseFlag
const CANotAuthorizedForExtKeyUsage = real.CANotAuthorizedForExtKeyUsage
const CANotAuthorizedForThisName = real.CANotAuthorizedForThisName
type CertPool = real.CertPool
var CertificateHold = real.CertificateHold
const CertificateHoldFlag = real.CertificateHoldFlag
type CertificateInvalidError = real.CertificateInvalidError
type CertificateList = real.CertificateList
type CertificateRequest = real.CertificateRequest
var CessationOfOperation = real.CessationOfOperation
const CessationOfOperationFlag = real.CessationOfOperationFlag
type ConstraintViolationError = real.ConstraintViolationError
var CreateCertificate = real.CreateCertificate
var CreateCertificateRequest = real.CreateCertificateRequest
const DSA = real.DSA
const DSAWithSHA1 = real.DSAWithSHA1
const DSAWithSHA256 = real.DSAWithSHA256
var DecryptPEMBlock = real.DecryptPEMBlock
const ECDSA = real.ECDSA
const ECDSAWithSHA1 = real.ECDSAWithSHA1
const ECDSAWithSHA256 = real.ECDSAWithSHA256
const ECDSAWithSHA384 = real.ECDSAWithSHA384
const ECDSAWithSHA512 = real.ECDSAWithSHA512
const EVRequirementsFailure = real.EVRequirementsFailure
const Ed25519 = real.Ed25519
var EncryptPEMBlock = real.EncryptPEMBlock
type ErrCategory = real.ErrCategory
const ErrCertListIssuingDPInvalidFullName = real.ErrCertListIssuingDPInvalidFullName
const ErrCertListIssuingDPMultipleTypes = real.ErrCertListIssuingDPMultipleTypes
const ErrInvalidCertList = real.ErrInvalidCertList
const ErrInvalidCertListAuthInfoAccess = real.ErrInvalidCertListAuthInfoAccess
const ErrInvalidCertListAuthKeyID = real.ErrInvalidCertListAuthKeyID
const ErrInvalidCertListCRLNumber = real.ErrInvalidCertListCRLNumber
const ErrInvalidCertListDeltaCRL = real.ErrInvalidCertListDeltaCRL
const ErrInvalidCertListFreshestCRL = real.ErrInvalidCertListFreshestCRL
const ErrInvalidCertListIssuerAltName = real.ErrInvalidCertListIssuerAltName
const ErrInvalidCertListIssuingDP = real.ErrInvalidCertListIssuingDP
const ErrInvalidID = real.ErrInvalidID
const ErrInvalidRevocationInvalidityDate = real.ErrInvalidRevocationInvalidityDate
const ErrInvalidRevocationIssuer = real.ErrInvalidRevocationIssuer
const ErrInvalidRevocationReason = real.ErrInvalidRevocationReason
const ErrMaxID = real.ErrMaxID
const ErrNegativeCertListCRLNumber = real.ErrNegativeCertListCRLNumber
const ErrNegativeCertListDeltaCRL = real.ErrNegativeCertListDeltaCRL
const ErrTrailingCertList = real.ErrTrailingCertList
const ErrTrailingCertListAuthInfoAccess = real.ErrTrailingCertListAuthInfoAccess
const ErrTrailingCertListAuthKeyID = real.ErrTrailingCertListAuthKeyID
const ErrTrailingCertListCRLNumber = real.ErrTrailingCertListCRLNumber
const ErrTrailingCertListDeltaCRL = real.ErrTrailingCertListDeltaCRL
const ErrTrailingCertListIssuingDP = real.ErrTrailingCertListIssuingDP
const ErrTrailingRevocationInvalidityDate = real.ErrTrailingRevocationInvalidityDate
const ErrTrailingRevocationReason = real.ErrTrailingRevocationReason
const ErrUnexpectedlyCriticalCertListExtension = real.ErrUnexpectedlyCriticalCertListExtension
const ErrUnexpectedlyCriticalRevokedCertExtension = real.ErrUnexpectedlyCriticalRevokedCertExtension
const ErrUnexpectedlyNonCriticalCertListExtension = real.ErrUnexpectedlyNonCriticalCertListExtension
const ErrUnexpectedlyNonCriticalRevokedCertExtension = real.ErrUnexpectedlyNonCriticalRevokedCertExtension
const ErrUnhandledCriticalCertListExtension = real.ErrUnhandledCriticalCertListExtension
const ErrUnhandledCriticalRevokedCertExtension = real.ErrUnhandledCriticalRevokedCertExtension
var ErrUnsupportedAlgorithm = real.ErrUnsupportedAlgorithm
type Error = real.Error
var ErrorFilter = real.ErrorFilter
type ErrorID = real.ErrorID
type Errors = real.Errors
const Expired = real.Expired
type ExtKeyUsage = real.ExtKeyUsage
const ExtKeyUsageAny = real.ExtKeyUsageAny
const ExtKeyUsageCertificateTransparency = real.ExtKeyUsageCertificateTransparency
const ExtKeyUsageClientAuth = real.ExtKeyUsageClientAuth
const ExtKeyUsageCodeSigning = real.ExtKeyUsageCodeSigning
const ExtKeyUsageEmailProtection = real.ExtKeyUsageEmailProtection
const ExtKeyUsageIPSECEndSystem = real.ExtKeyUsageIPSECEndSystem
const ExtKeyUsageIPSECTunnel = real.ExtKeyUsageIPSECTunnel
const ExtKeyUsageIPSECUser = real.ExtKeyUsageIPSECUser
const ExtKeyUsageMicrosoftCommercialCodeSigning = real.ExtKeyUsageMicrosoftCommercialCodeSigning
const ExtKeyUsageMicrosoftKernelCodeSigning = real.ExtKeyUsageMicrosoftKernelCodeSigning
const ExtKeyUsageMicrosoftServerGatedCrypto = real.ExtKeyUsageMicrosoftServerGatedCrypto
const ExtKeyUsageNetscapeServerGatedCrypto = real.ExtKeyUsageNetscapeServerGatedCrypto
const ExtKeyUsageOCSPSigning = real.ExtKeyUsageOCSPSigning
const ExtKeyUsageServerAuth = real.ExtKeyUsageServerAuth
const ExtKeyUsageTimeStamping = real.ExtKeyUsageTimeStamping
type GeneralNames = real.GeneralNames
type HostnameError = real.HostnameError
type IPAddressFamilyBlocks = real.IPAddressFamilyBlocks
type IPAddressPrefix = real.IPAddressPrefix
type IPAddressRange = real.IPAddressRange
const IPv4AddressFamilyIndicator = real.IPv4AddressFamilyIndicator
const IPv6AddressFamilyIndicator = real.IPv6AddressFamilyIndicator
const IncompatibleUsage = real.IncompatibleUsage
var IncorrectPasswordError = real.IncorrectPasswordError
const InsecureAlgorithm = real.InsecureAlgorithm
type InsecureAlgorithmError = real.InsecureAlgorithmError
const InvalidASN1Content = real.InvalidASN1Content
const InvalidASN1DER = real.InvalidASN1DER
const InvalidASN1Encoding = real.InvalidASN1Encoding
const InvalidASN1Type = real.InvalidASN1Type
type InvalidReason = real.InvalidReason
const InvalidValueRange = real.InvalidValueRange
var IsEncryptedPEMBlock = real.IsEncryptedPEMBlock
var IsFatal = real.IsFatal
type IssuingDistributionPoint = real.IssuingDistributionPoint
var KeyCompromise = real.KeyCompromise
const KeyCompromiseFlag = real.KeyCompromiseFlag
type KeyUsage = real.KeyUsage
const KeyUsageCRLSign = real.KeyUsageCRLSign
const KeyUsageCertSign = real.KeyUsageCertSign
const KeyUsageContentCommitment = real.KeyUsageContentCommitment
const KeyUsageDataEncipherment = real.KeyUsageDataEncipherment
const KeyUsageDecipherOnly = real.KeyUsageDecipherOnly
const KeyUsageDigitalSignature = real.KeyUsageDigitalSignature
const KeyUsageEncipherOnly = real.KeyUsageEncipherOnly
const KeyUsageKeyAgreement = real.KeyUsageKeyAgreement
const KeyUsageKeyEncipherment = real.KeyUsageKeyEncipherment
const MD2WithRSA = real.MD2WithRSA
const MD5WithRSA = real.MD5WithRSA
const MalformedCRL = real.MalformedCRL
const MalformedCertificate = real.MalformedCertificate
var MarshalECPrivateKey = real.MarshalECPrivateKey
var MarshalPKCS1PrivateKey = real.MarshalPKCS1PrivateKey
var MarshalPKCS1PublicKey = real.MarshalPKCS1PublicKey
var MarshalPKCS8PrivateKey = real.MarshalPKCS8PrivateKey
var MarshalPKIXPublicKey = real.MarshalPKIXPublicKey
const NameConstraintsWithoutSANs = real.NameConstraintsWithoutSANs
const NameMismatch = real.NameMismatch
var NewCertPool = real.NewCertPool
var NewError = real.NewError
type NonFatalErrors = real.NonFatalErrors
const NotAuthorizedToSign = real.NotAuthorizedToSign
var OIDAnyPolicy = real.OIDAnyPolicy
var OIDAuthorityInfoAccessIssuers = real.OIDAuthorityInfoAccessIssuers
var OIDAuthorityInfoAccessOCSP = real.OIDAuthorityInfoAccessOCSP
var OIDExtensionASList = real.OIDExtensionASList
var OIDExtensionArc = real.OIDExtensionArc
var OIDExtensionAuthorityInfoAccess = real.OIDExtensionAuthorityInfoAccess
var OIDExtensionAuthorityKeyId = real.OIDExtensionAuthorityKeyId
var OIDExtensionBasicConstraints = real.OIDExtensionBasicConstraints
var OIDExtensionCRLDistributionPoints = real.OIDExtensionCRLDistributionPoints
var OIDExtensionCRLNumber = real.OIDExtensionCRLNumber
var OIDExtensionCRLReasons = real.OIDExtensionCRLReasons
var OIDExtensionCTPoison = real.OIDExtensionCTPoison
var OIDExtensionCTSCT = real.OIDExtensionCTSCT
var OIDExtensionCertificateIssuer = real.OIDExtensionCertificateIssuer
var OIDExtensionCertificatePolicies = real.OIDExtensionCertificatePolicies
var OIDExtensionDeltaCRLIndicator = real.OIDExtensionDeltaCRLIndicator
var OIDExtensionExtendedKeyUsage = real.OIDExtensionExtendedKeyUsage
var OIDExtensionFreshestCRL = real.OIDExtensionFreshestCRL
var OIDExtensionIPPrefixList = real.OIDExtensionIPPrefixList
var OIDExtensionInhibitAnyPolicy = real.OIDExtensionInhibitAnyPolicy
var OIDExtensionInvalidityDate = real.OIDExtensionInvalidityDate
var OIDExtensionIssuerAltName = real.OIDExtensionIssuerAltName
var OIDExtensionIssuingDistributionPoint = real.OIDExtensionIssuingDistributionPoint
var OIDExtensionKeyUsage = real.OIDExtensionKeyUsage
var OIDExtensionNameConstraints = real.OIDExtensionNameConstraints
var OIDExtensionPolicyConstraints = real.OIDExtensionPolicyConstraints
var OIDExtensionPolicyMappings = real.OIDExtensionPolicyMappings
var OIDExtensionSubjectAltName = real.OIDExtensionSubjectAltName
var OIDExtensionSubjectDirectoryAttributes = real.OIDExtensionSubjectDirectoryAttributes
var OIDExtensionSubjectInfoAccess = real.OIDExtensionSubjectInfoAccess
var OIDExtensionSubjectKeyId = real.OIDExtensionSubjectKeyId
var OIDFromNamedCurve = real.OIDFromNamedCurve
var OIDNamedCurveP192 = real.OIDNamedCurveP192
var OIDNamedCurveP224 = real.OIDNamedCurveP224
var OIDNamedCurveP256 = real.OIDNamedCurveP256
var OIDNamedCurveP384 = real.OIDNamedCurveP384
var OIDNamedCurveP521 = real.OIDNamedCurveP521
var OIDPublicKeyDSA = real.OIDPublicKeyDSA
var OIDPublicKeyECDSA = real.OIDPublicKeyECDSA
var OIDPublicKeyEd25519 = real.OIDPublicKeyEd25519
var OIDPublicKeyRSA = real.OIDPublicKeyRSA
var OIDPublicKeyRSAESOAEP = real.OIDPublicKeyRSAESOAEP
var OIDPublicKeyRSAObsolete = real.OIDPublicKeyRSAObsolete
var OIDSubjectInfoAccessCARepo = real.OIDSubjectInfoAccessCARepo
var OIDSubjectInfoAccessTimestamp = real.OIDSubjectInfoAccessTimestamp
type OtherName = real.OtherName
type PEMCipher = real.PEMCipher
const PEMCipher3DES = real.PEMCipher3DES
const PEMCipherAES128 = real.PEMCipherAES128
const PEMCipherAES192 = real.PEMCipherAES192
const PEMCipherAES256 = real.PEMCipherAES256
const PEMCipherDES = real.PEMCipherDES
var ParseCertificateRequest = real.ParseCertificateRequest
var ParseCertificates = real.ParseCertificates
var ParseECPrivateKey = real.ParseECPrivateKey
var ParsePKCS1PrivateKey = real.ParsePKCS1PrivateKey
var ParsePKCS1PublicKey = real.ParsePKCS1PublicKey
var ParsePKCS8PrivateKey = real.ParsePKCS8PrivateKey
var ParseTBSCertificate = real.ParseTBSCertificate
const PoorlyFormedCRL = real.PoorlyFormedCRL
const PoorlyFormedCertificate = real.PoorlyFormedCertificate
var PrivilegeWithdrawn = real.PrivilegeWithdrawn
const PrivilegeWithdrawnFlag = real.PrivilegeWithdrawnFlag
type PublicKeyAlgorithm = real.PublicKeyAlgorithm
const PureEd25519 = real.PureEd25519
const RSA = real.RSA
const RSAESOAEP = real.RSAESOAEP
type ReasonFlag = real.ReasonFlag
var RemoveCTPoison = real.RemoveCTPoison
var RemoveFromCRL = real.RemoveFromCRL
var RemoveSCTList = real.RemoveSCTList
type RevocationReasonCode = real.RevocationReasonCode
type RevokedCertificate = real.RevokedCertificate
const SHA1WithRSA = real.SHA1WithRSA
const SHA256WithRSA = real.SHA256WithRSA
const SHA256WithRSAPSS = real.SHA256WithRSAPSS
const SHA384WithRSA = real.SHA384WithRSA
const SHA384WithRSAPSS = real.SHA384WithRSAPSS
const SHA512WithRSA = real.SHA512WithRSA
const SHA512WithRSAPSS = real.SHA512WithRSAPSS
type SerializedSCT = real.SerializedSCT
type SignatureAlgorithm = real.SignatureAlgorithm
var SignatureAlgorithmFromAI = real.SignatureAlgorithmFromAI
type SignedCertificateTimestampList = real.SignedCertificateTimestampList
var Superseded = real.Superseded
const SupersededFlag = real.SupersededFlag
var SystemCertPool = real.SystemCertPool
type SystemRootsError = real.SystemRootsError
type TBSCertList = real.TBSCertList
const TooManyConstraints = real.TooManyConstraints
const TooManyIntermediates = real.TooManyIntermediates
const UnconstrainedName = real.UnconstrainedName
const UnexpectedAdditionalData = real.UnexpectedAdditionalData
type UnhandledCriticalExtension = real.UnhandledCriticalExtension
type UnknownAuthorityError = real.UnknownAuthorityError
const UnknownCategory = real.UnknownCategory
const UnknownPublicKeyAlgorithm = real.UnknownPublicKeyAlgorithm
const UnknownSignatureAlgorithm = real.UnknownSignatureAlgorithm
const UnrecognizedValue = real.UnrecognizedValue
var Unspecified = real.Unspecified
const UnusedFlag = real.UnusedFlag
type VerifyOptions = real.VerifyOptions
