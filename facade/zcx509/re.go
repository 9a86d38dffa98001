// Code generated by vfcheck -gen. DO NOT EDIT.

package x509

import real "github.com/zmap/zcrypto/x509"

type AugmentedECDSA = real.AugmentedECDSA
type AuthorityInfoAccess = real.AuthorityInfoAccess
type BasicConstraints = real.BasicConstraints
type CABFOrganizationIDASN = real.CABFOrganizationIDASN
type CABFOrganizationIdentifier = real.CABFOrganizationIdentifier
const CANotAuthorizedForThisDirectory = real.CANotAuthorizedForThisDirectory
const CANotAuthorizedForThisEmail = real.CANotAuthorizedForThisEmail
const CANotAuthorizedForThisIP = real.CANotAuthorizedForThisIP
const CANotAuthorizedForThisName = real.CANotAuthorizedForThisName
type CRLDistributionPoints = real.CRLDistributionPoints
type CertValidationLevel = real.CertValidationLevel
type CertificateExtensions = real.CertificateExtensions
type CertificateFingerprint = real.CertificateFingerprint
type CertificateInvalidError = real.CertificateInvalidError
type CertificatePolicies = real.CertificatePolicies
type CertificatePoliciesData = real.CertificatePoliciesData
type CertificatePoliciesJSON = real.CertificatePoliciesJSON
type CertificateRequest = real.CertificateRequest
type CertificateType = real.CertificateType
const CertificateTypeIntermediate = real.CertificateTypeIntermediate
const CertificateTypeLeaf = real.CertificateTypeLeaf
const CertificateTypeRoot = real.CertificateTypeRoot
const CertificateTypeUnknown = real.CertificateTypeUnknown
var CheckSignatureFromKey = real.CheckSignatureFromKey
type ConstraintViolationError = real.ConstraintViolationError
var CreateCertificate = real.CreateCertificate
var CreateCertificateRequest = real.CreateCertificateRequest
var CreateRevocationList = real.CreateRevocationList
const DSA = real.DSA
type DSAPublicKeyJSON = real.DSAPublicKeyJSON
const DSAWithSHA1 = real.DSAWithSHA1
const DSAWithSHA256 = real.DSAWithSHA256
const DV = real.DV
var DecryptPEMBlock = real.DecryptPEMBlock
var DomainValidationOIDs = real.DomainValidationOIDs
const ECDSA = real.ECDSA
type ECDSAPublicKeyJSON = real.ECDSAPublicKeyJSON
const ECDSAWithSHA1 = real.ECDSAWithSHA1
const ECDSAWithSHA256 = real.ECDSAWithSHA256
const ECDSAWithSHA384 = real.ECDSAWithSHA384
const ECDSAWithSHA512 = real.ECDSAWithSHA512
const EV = real.EV
const Ed25519 = real.Ed25519
const Ed25519Sig = real.Ed25519Sig
var EncryptPEMBlock = real.EncryptPEMBlock
var ErrUnsupportedAlgorithm = real.ErrUnsupportedAlgorithm
var ErrUnsupportedEllipticCurve = real.ErrUnsupportedEllipticCurve
const Expired = real.Expired
type ExtKeyUsage = real.ExtKeyUsage
const ExtKeyUsageAdobeAuthenticDocumentTrust = real.ExtKeyUsageAdobeAuthenticDocumentTrust
const ExtKeyUsageAny = real.ExtKeyUsageAny
const ExtKeyUsageAppleCodeSigning = real.ExtKeyUsageAppleCodeSigning
const ExtKeyUsageAppleCodeSigningDevelopment = real.ExtKeyUsageAppleCodeSigningDevelopment
const ExtKeyUsageAppleCodeSigningThirdParty = real.ExtKeyUsageAppleCodeSigningThirdParty
const ExtKeyUsageAppleCryptoDevelopmentEnv = real.ExtKeyUsageAppleCryptoDevelopmentEnv
const ExtKeyUsageAppleCryptoEnv = real.ExtKeyUsageAppleCryptoEnv
const ExtKeyUsageAppleCryptoMaintenanceEnv = real.ExtKeyUsageAppleCryptoMaintenanceEnv
const ExtKeyUsageAppleCryptoProductionEnv = real.ExtKeyUsageAppleCryptoProductionEnv
const ExtKeyUsageAppleCryptoQos = real.ExtKeyUsageAppleCryptoQos
const ExtKeyUsageAppleCryptoTestEnv = real.ExtKeyUsageAppleCryptoTestEnv
const ExtKeyUsageAppleCryptoTier0Qos = real.ExtKeyUsageAppleCryptoTier0Qos
const ExtKeyUsageAppleCryptoTier1Qos = real.ExtKeyUsageAppleCryptoTier1Qos
const ExtKeyUsageAppleCryptoTier2Qos = real.ExtKeyUsageAppleCryptoTier2Qos
const ExtKeyUsageAppleCryptoTier3Qos = real.ExtKeyUsageAppleCryptoTier3Qos
const ExtKeyUsageAppleIchatEncryption = real.ExtKeyUsageAppleIchatEncryption
const ExtKeyUsageAppleIchatSigning = real.ExtKeyUsageAppleIchatSigning
const ExtKeyUsageAppleResourceSigning = real.ExtKeyUsageAppleResourceSigning
const ExtKeyUsageAppleSoftwareUpdateSigning = real.ExtKeyUsageAppleSoftwareUpdateSigning
const ExtKeyUsageAppleSystemIdentity = real.ExtKeyUsageAppleSystemIdentity
const ExtKeyUsageClientAuth = real.ExtKeyUsageClientAuth
const ExtKeyUsageCodeSigning = real.ExtKeyUsageCodeSigning
const ExtKeyUsageDvcs = real.ExtKeyUsageDvcs
const ExtKeyUsageEapOverLan = real.ExtKeyUsageEapOverLan
const ExtKeyUsageEapOverPpp = real.ExtKeyUsageEapOverPpp
const ExtKeyUsageEmailProtection = real.ExtKeyUsageEmailProtection
const ExtKeyUsageIpsecEndSystem = real.ExtKeyUsageIpsecEndSystem
const ExtKeyUsageIpsecIntermediateSystemUsage = real.ExtKeyUsageIpsecIntermediateSystemUsage
const ExtKeyUsageIpsecTunnel = real.ExtKeyUsageIpsecTunnel
const ExtKeyUsageIpsecUser = real.ExtKeyUsageIpsecUser
const ExtKeyUsageMicrosoftCaExchange = real.ExtKeyUsageMicrosoftCaExchange
const ExtKeyUsageMicrosoftCertTrustListSigning = real.ExtKeyUsageMicrosoftCertTrustListSigning
const ExtKeyUsageMicrosoftCspSignature = real.ExtKeyUsageMicrosoftCspSignature
const ExtKeyUsageMicrosoftDocumentSigning = real.ExtKeyUsageMicrosoftDocumentSigning
const ExtKeyUsageMicrosoftDrm = real.ExtKeyUsageMicrosoftDrm
const ExtKeyUsageMicrosoftDrmIndividualization = real.ExtKeyUsageMicrosoftDrmIndividualization
const ExtKeyUsageMicrosoftEfsRecovery = real.ExtKeyUsageMicrosoftEfsRecovery
const ExtKeyUsageMicrosoftEmbeddedNtCrypto = real.ExtKeyUsageMicrosoftEmbeddedNtCrypto
const ExtKeyUsageMicrosoftEncryptedFileSystem = real.ExtKeyUsageMicrosoftEncryptedFileSystem
const ExtKeyUsageMicrosoftEnrollmentAgent = real.ExtKeyUsageMicrosoftEnrollmentAgent
const ExtKeyUsageMicrosoftKernelModeCodeSigning = real.ExtKeyUsageMicrosoftKernelModeCodeSigning
const ExtKeyUsageMicrosoftKeyRecovery21 = real.ExtKeyUsageMicrosoftKeyRecovery21
const ExtKeyUsageMicrosoftKeyRecovery3 = real.ExtKeyUsageMicrosoftKeyRecovery3
const ExtKeyUsageMicrosoftLicenseServer = real.ExtKeyUsageMicrosoftLicenseServer
const ExtKeyUsageMicrosoftLicenses = real.ExtKeyUsageMicrosoftLicenses
const ExtKeyUsageMicrosoftLifetimeSigning = real.ExtKeyUsageMicrosoftLifetimeSigning
const ExtKeyUsageMicrosoftMobileDeviceSoftware = real.ExtKeyUsageMicrosoftMobileDeviceSoftware
const ExtKeyUsageMicrosoftNt5Crypto = real.ExtKeyUsageMicrosoftNt5Crypto
const ExtKeyUsageMicrosoftOemWhqlCrypto = real.ExtKeyUsageMicrosoftOemWhqlCrypto
const ExtKeyUsageMicrosoftQualifiedSubordinate = real.ExtKeyUsageMicrosoftQualifiedSubordinate
const ExtKeyUsageMicrosoftRootListSigner = real.ExtKeyUsageMicrosoftRootListSigner
const ExtKeyUsageMicrosoftServerGatedCrypto = real.ExtKeyUsageMicrosoftServerGatedCrypto
const ExtKeyUsageMicrosoftSgcSerialized = real.ExtKeyUsageMicrosoftSgcSerialized
const ExtKeyUsageMicrosoftSmartDisplay = real.ExtKeyUsageMicrosoftSmartDisplay
const ExtKeyUsageMicrosoftSmartcardLogon = real.ExtKeyUsageMicrosoftSmartcardLogon
const ExtKeyUsageMicrosoftSystemHealth = real.ExtKeyUsageMicrosoftSystemHealth
const ExtKeyUsageMicrosoftSystemHealthLoophole = real.ExtKeyUsageMicrosoftSystemHealthLoophole
const ExtKeyUsageMicrosoftTimestampSigning = real.ExtKeyUsageMicrosoftTimestampSigning
const ExtKeyUsageMicrosoftWhqlCrypto = real.ExtKeyUsageMicrosoftWhqlCrypto
const ExtKeyUsageNetscapeServerGatedCrypto = real.ExtKeyUsageNetscapeServerGatedCrypto
const ExtKeyUsageOcspSigning = real.ExtKeyUsageOcspSigning
const ExtKeyUsageSbgpCertAaServiceAuth = real.ExtKeyUsageSbgpCertAaServiceAuth
const ExtKeyUsageServerAuth = real.ExtKeyUsageServerAuth
const ExtKeyUsageTimeStamping = real.ExtKeyUsageTimeStamping
type ExtendedKeyUsage = real.ExtendedKeyUsage
type ExtendedKeyUsageExtension = real.ExtendedKeyUsageExtension
var ExtendedValidationOIDs = real.ExtendedValidationOIDs
var FilterByDate = real.FilterByDate
type GeneralNames = real.GeneralNames
type GeneralSubtreeEdi = real.GeneralSubtreeEdi
type GeneralSubtreeIP = real.GeneralSubtreeIP
type GeneralSubtreeName = real.GeneralSubtreeName
type GeneralSubtreeOid = real.GeneralSubtreeOid
type GeneralSubtreeRaw = real.GeneralSubtreeRaw
type GeneralSubtreeString = real.GeneralSubtreeString
var GetAugmentedECDSAPublicKeyJSON = real.GetAugmentedECDSAPublicKeyJSON
var GetDSAPublicKeyJSON = real.GetDSAPublicKeyJSON
var GetECDSAPublicKeyJSON = real.GetECDSAPublicKeyJSON
var GetRSAPublicKeyJSON = real.GetRSAPublicKeyJSON
var GetSignatureAlgorithmFromAI = real.GetSignatureAlgorithmFromAI
type HostnameError = real.HostnameError
const IncompatibleUsage = real.IncompatibleUsage
var IncorrectPasswordError = real.IncorrectPasswordError
type InsecureAlgorithmError = real.InsecureAlgorithmError
type InvalidReason = real.InvalidReason
var IsEncryptedPEMBlock = real.IsEncryptedPEMBlock
type IsPrecert = real.IsPrecert
const IsSelfSigned = real.IsSelfSigned
type JSONCertificate = real.JSONCertificate
type JSONCertificateWithRaw = real.JSONCertificateWithRaw
type JSONSignature = real.JSONSignature
type JSONSignatureAlgorithm = real.JSONSignatureAlgorithm
type JSONSubjectKeyInfo = real.JSONSubjectKeyInfo
type JSONValidity = real.JSONValidity
type KeyUsage = real.KeyUsage
const KeyUsageCRLSign = real.KeyUsageCRLSign
const KeyUsageCertSign = real.KeyUsageCertSign
const KeyUsageContentCommitment = real.KeyUsageContentCommitment
const KeyUsageDataEncipherment = real.KeyUsageDataEncipherment
const KeyUsageDecipherOnly = real.KeyUsageDecipherOnly
const KeyUsageDigitalSignature = real.KeyUsageDigitalSignature
const KeyUsageEncipherOnly = real.KeyUsageEncipherOnly
const KeyUsageKeyAgreement = real.KeyUsageKeyAgreement
const KeyUsageKeyEncipherment = real.KeyUsageKeyEncipherment
const MD2WithRSA = real.MD2WithRSA
var MD5Fingerprint = real.MD5Fingerprint
const MD5WithRSA = real.MD5WithRSA
var MarshalECPrivateKey = real.MarshalECPrivateKey
var MarshalPKCS1PrivateKey = real.MarshalPKCS1PrivateKey
var MarshalPKCS8PrivateKey = real.MarshalPKCS8PrivateKey
var MarshalPKIXPublicKey = real.MarshalPKIXPublicKey
type MonetaryValue = real.MonetaryValue
type NameConstraints = real.NameConstraints
type NameConstraintsJSON = real.NameConstraintsJSON
const NameMismatch = real.NameMismatch
const NeverValid = real.NeverValid
const NotAuthorizedToSign = real.NotAuthorizedToSign
type NoticeNumber = real.NoticeNumber
type NoticeReference = real.NoticeReference
const OID_EKU_ADOBE_AUTHENTIC_DOCUMENT_TRUST = real.OID_EKU_ADOBE_AUTHENTIC_DOCUMENT_TRUST
const OID_EKU_ANY = real.OID_EKU_ANY
const OID_EKU_APPLE_CODE_SIGNING = real.OID_EKU_APPLE_CODE_SIGNING
const OID_EKU_APPLE_CODE_SIGNING_DEVELOPMENT = real.OID_EKU_APPLE_CODE_SIGNING_DEVELOPMENT
const OID_EKU_APPLE_CODE_SIGNING_THIRD_PARTY = real.OID_EKU_APPLE_CODE_SIGNING_THIRD_PARTY
const OID_EKU_APPLE_CRYPTO_DEVELOPMENT_ENV = real.OID_EKU_APPLE_CRYPTO_DEVELOPMENT_ENV
const OID_EKU_APPLE_CRYPTO_ENV = real.OID_EKU_APPLE_CRYPTO_ENV
const OID_EKU_APPLE_CRYPTO_MAINTENANCE_ENV = real.OID_EKU_APPLE_CRYPTO_MAINTENANCE_ENV
const OID_EKU_APPLE_CRYPTO_PRODUCTION_ENV = real.OID_EKU_APPLE_CRYPTO_PRODUCTION_ENV
const OID_EKU_APPLE_CRYPTO_QOS = real.OID_EKU_APPLE_CRYPTO_QOS
const OID_EKU_APPLE_CRYPTO_TEST_ENV = real.OID_EKU_APPLE_CRYPTO_TEST_ENV
const OID_EKU_APPLE_CRYPTO_TIER0_QOS = real.OID_EKU_APPLE_CRYPTO_TIER0_QOS
const OID_EKU_APPLE_CRYPTO_TIER1_QOS = real.OID_EKU_APPLE_CRYPTO_TIER1_QOS
const OID_EKU_APPLE_CRYPTO_TIER2_QOS = real.OID_EKU_APPLE_CRYPTO_TIER2_QOS
const OID_EKU_APPLE_CRYPTO_TIER3_QOS = real.OID_EKU_APPLE_CRYPTO_TIER3_QOS
const OID_EKU_APPLE_ICHAT_ENCRYPTION = real.OID_EKU_APPLE_ICHAT_ENCRYPTION
const OID_EKU_APPLE_ICHAT_SIGNING = real.OID_EKU_APPLE_ICHAT_SIGNING
const OID_EKU_APPLE_RESOURCE_SIGNING = real.OID_EKU_APPLE_RESOURCE_SIGNING
const OID_EKU_APPLE_SOFTWARE_UPDATE_SIGNING = real.OID_EKU_APPLE_SOFTWARE_UPDATE_SIGNING
const OID_EKU_APPLE_SYSTEM_IDENTITY = real.OID_EKU_APPLE_SYSTEM_IDENTITY
const OID_EKU_CLIENT_AUTH = real.OID_EKU_CLIENT_AUTH
const OID_EKU_CODE_SIGNING = real.OID_EKU_CODE_SIGNING
const OID_EKU_DVCS = real.OID_EKU_DVCS
const OID_EKU_EAP_OVER_LAN = real.OID_EKU_EAP_OVER_LAN
const OID_EKU_EAP_OVER_PPP = real.OID_EKU_EAP_OVER_PPP
const OID_EKU_EMAIL_PROTECTION = real.OID_EKU_EMAIL_PROTECTION
const OID_EKU_IPSEC_END_SYSTEM = real.OID_EKU_IPSEC_END_SYSTEM
const OID_EKU_IPSEC_INTERMEDIATE_SYSTEM_USAGE = real.OID_EKU_IPSEC_INTERMEDIATE_SYSTEM_USAGE
const OID_EKU_IPSEC_TUNNEL = real.OID_EKU_IPSEC_TUNNEL
const OID_EKU_IPSEC_USER = real.OID_EKU_IPSEC_USER
const OID_EKU_MICROSOFT_CA_EXCHANGE = real.OID_EKU_MICROSOFT_CA_EXCHANGE
const OID_EKU_MICROSOFT_CERT_TRUST_LIST_SIGNING = real.OID_EKU_MICROSOFT_CERT_TRUST_LIST_SIGNING
const OID_EKU_MICROSOFT_CSP_SIGNATURE = real.OID_EKU_MICROSOFT_CSP_SIGNATURE
const OID_EKU_MICROSOFT_DOCUMENT_SIGNING = real.OID_EKU_MICROSOFT_DOCUMENT_SIGNING
const OID_EKU_MICROSOFT_DRM = real.OID_EKU_MICROSOFT_DRM
const OID_EKU_MICROSOFT_DRM_INDIVIDUALIZATION = real.OID_EKU_MICROSOFT_DRM_INDIVIDUALIZATION
const OID_EKU_MICROSOFT_EFS_RECOVERY = real.OID_EKU_MICROSOFT_EFS_RECOVERY
const OID_EKU_MICROSOFT_EMBEDDED_NT_CRYPTO = real.OID_EKU_MICROSOFT_EMBEDDED_NT_CRYPTO
const OID_EKU_MICROSOFT_ENCRYPTED_FILE_SYSTEM = real.OID_EKU_MICROSOFT_ENCRYPTED_FILE_SYSTEM
const OID_EKU_MICROSOFT_ENROLLMENT_AGENT = real.OID_EKU_MICROSOFT_ENROLLMENT_AGENT
const OID_EKU_MICROSOFT_KERNEL_MODE_CODE_SIGNING = real.OID_EKU_MICROSOFT_KERNEL_MODE_CODE_SIGNING
const OID_EKU_MICROSOFT_KEY_RECOVERY_21 = real.OID_EKU_MICROSOFT_KEY_RECOVERY_21
const OID_EKU_MICROSOFT_KEY_RECOVERY_3 = real.OID_EKU_MICROSOFT_KEY_RECOVERY_3
const OID_EKU_MICROSOFT_LICENSES = real.OID_EKU_MICROSOFT_LICENSES
const OID_EKU_MICROSOFT_LICENSE_SERVER = real.OID_EKU_MICROSOFT_LICENSE_SERVER
const OID_EKU_MICROSOFT_LIFETIME_SIGNING = real.OID_EKU_MICROSOFT_LIFETIME_SIGNING
const OID_EKU_MICROSOFT_MOBILE_DEVICE_SOFTWARE = real.OID_EKU_MICROSOFT_MOBILE_DEVICE_SOFTWARE
const OID_EKU_MICROSOFT_NT5_CRYPTO = real.OID_EKU_MICROSOFT_NT5_CRYPTO
const OID_EKU_MICROSOFT_OEM_WHQL_CRYPTO = real.OID_EKU_MICROSOFT_OEM_WHQL_CRYPTO
const OID_EKU_MICROSOFT_QUALIFIED_SUBORDINATE = real.OID_EKU_MICROSOFT_QUALIFIED_SUBORDINATE
const OID_EKU_MICROSOFT_ROOT_LIST_SIGNER = real.OID_EKU_MICROSOFT_ROOT_LIST_SIGNER
const OID_EKU_MICROSOFT_SERVER_GATED_CRYPTO = real.OID_EKU_MICROSOFT_SERVER_GATED_CRYPTO
const OID_EKU_MICROSOFT_SGC_SERIALIZED = real.OID_EKU_MICROSOFT_SGC_SERIALIZED
const OID_EKU_MICROSOFT_SMARTCARD_LOGON = real.OID_EKU_MICROSOFT_SMARTCARD_LOGON
const OID_EKU_MICROSOFT_SMART_DISPLAY = real.OID_EKU_MICROSOFT_SMART_DISPLAY
const OID_EKU_MICROSOFT_SYSTEM_HEALTH = real.OID_EKU_MICROSOFT_SYSTEM_HEALTH
const OID_EKU_MICROSOFT_SYSTEM_HEALTH_LOOPHOLE = real.OID_EKU_MICROSOFT_SYSTEM_HEALTH_LOOPHOLE
const OID_EKU_MICROSOFT_TIMESTAMP_SIGNING = real.OID_EKU_MICROSOFT_TIMESTAMP_SIGNING
const OID_EKU_MICROSOFT_WHQL_CRYPTO = real.OID_EKU_MICROSOFT_WHQL_CRYPTO
const OID_EKU_NETSCAPE_SERVER_GATED_CRYPTO = real.OID_EKU_NETSCAPE_SERVER_GATED_CRYPTO
const OID_EKU_OCSP_SIGNING = real.OID_EKU_OCSP_SIGNING
const OID_EKU_SBGP_CERT_AA_SERVICE_AUTH = real.OID_EKU_SBGP_CERT_AA_SERVICE_AUTH
const OID_EKU_SERVER_AUTH = real.OID_EKU_SERVER_AUTH
const OID_EKU_TIME_STAMPING = real.OID_EKU_TIME_STAMPING
const OV = real.OV
var OrganizationValidationOIDs = real.OrganizationValidationOIDs
type PDSLocation = real.PDSLocation
type PDSLocations = real.PDSLocations
type PEMCipher = real.PEMCipher
const PEMCipher3DES = real.PEMCipher3DES
const PEMCipherAES128 = real.PEMCipherAES128
const PEMCipherAES192 = real.PEMCipherAES192
const PEMCipherAES256 = real.PEMCipherAES256
const PEMCipherDES = real.PEMCipherDES
var ParseCRL = real.ParseCRL
var ParseCertificateRequest = real.ParseCertificateRequest
var ParseCertificates = real.ParseCertificates
var ParseDERCRL = real.ParseDERCRL
var ParseECPrivateKey = real.ParseECPrivateKey
var ParsePKCS1PrivateKey = real.ParsePKCS1PrivateKey
var ParsePKCS8PrivateKey = real.ParsePKCS8PrivateKey
var ParsePKIXPublicKey = real.ParsePKIXPublicKey
var ParseRevocationList = real.ParseRevocationList
var ParseTBSCertificate = real.ParseTBSCertificate
type ParsedDomainName = real.ParsedDomainName
type ParsedQCStatements = real.ParsedQCStatements
type PublicKeyAlgorithm = real.PublicKeyAlgorithm
type QCLegistation = real.QCLegistation
type QCStatementASN = real.QCStatementASN
type QCStatements = real.QCStatements
type QCStatementsASN = real.QCStatementsASN
type QCType = real.QCType
const RSA = real.RSA
type RevocationList = real.RevocationList
type RevokedCertificate = real.RevokedCertificate
var SHA1Fingerprint = real.SHA1Fingerprint
const SHA1WithRSA = real.SHA1WithRSA
var SHA256Fingerprint = real.SHA256Fingerprint
const SHA256WithRSA = real.SHA256WithRSA
const SHA256WithRSAPSS = real.SHA256WithRSAPSS
const SHA384WithRSA = real.SHA384WithRSA
const SHA384WithRSAPSS = real.SHA384WithRSAPSS
var SHA512Fingerprint = real.SHA512Fingerprint
const SHA512WithRSA = real.SHA512WithRSA
const SHA512WithRSAPSS = real.SHA512WithRSAPSS
type SignatureAlgorithm = real.SignatureAlgorithm
type SignatureAlgorithmOID = real.SignatureAlgorithmOID
type SubjAuthKeyId = real.SubjAuthKeyId
type SubjectAndKey = real.SubjectAndKey
type SystemRootsError = real.SystemRootsError
const TooManyIntermediates = real.TooManyIntermediates
type TorServiceDescriptorHash = real.TorServiceDescriptorHash
type UnhandledCriticalExtension = real.UnhandledCriticalExtension
type UnknownAuthorityError = real.UnknownAuthorityError
type UnknownCertificateExtensions = real.UnknownCertificateExtensions
const UnknownPublicKeyAlgorithm = real.UnknownPublicKeyAlgorithm
const UnknownSignatureAlgorithm = real.UnknownSignatureAlgorithm
const UnknownValidationLevel = real.UnknownValidationLevel
type UserNotice = real.UserNotice
type UserNoticeData = real.UserNoticeData
type Validation = real.Validation
const X25519 = real.X25519
type X25519PublicKey = real.X25519PublicKey
