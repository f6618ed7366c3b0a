package main

import (
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

// constants of the interface: numbers and words of the protocol
var infoNums = map[string]int64{
	"adc.UserTypeNone":        int64(adc.UserTypeNone),
	"adc.UserTypeBot":         int64(adc.UserTypeBot),
	"adc.UserTypeRegistered":  int64(adc.UserTypeRegistered),
	"adc.UserTypeOperator":    int64(adc.UserTypeOperator),
	"adc.UserTypeSuperUser":   int64(adc.UserTypeSuperUser),
	"adc.UserTypeHubOwner":    int64(adc.UserTypeHubOwner),
	"adc.UserTypeHub":         int64(adc.UserTypeHub),
	"adc.UserTypeHidden":      int64(adc.UserTypeHidden),
	"adc.AwayTypeNone":        int64(adc.AwayTypeNone),
	"adc.AwayTypeNormal":      int64(adc.AwayTypeNormal),
	"adc.AwayTypeExtended":    int64(adc.AwayTypeExtended),
	"adc.CategoryHub":         int64(adc.CategoryHub),
	"adc.CategoryUser":        int64(adc.CategoryUser),
	"adc.CategorySearch":      int64(adc.CategorySearch),
	"adc.CategoryFileList":    int64(adc.CategoryFileList),
	"adc.FileTypeAny":         int64(adc.FileTypeAny),
	"adc.FileTypeFile":        int64(adc.FileTypeFile),
	"adc.FileTypeDir":         int64(adc.FileTypeDir),
	"adc.ExtNone":             int64(adc.ExtNone),
	"adc.ExtAudio":            int64(adc.ExtAudio),
	"adc.ExtArch":             int64(adc.ExtArch),
	"adc.ExtDoc":              int64(adc.ExtDoc),
	"adc.ExtExe":              int64(adc.ExtExe),
	"adc.ExtImage":            int64(adc.ExtImage),
	"adc.ExtVideo":            int64(adc.ExtVideo),
	"adc.Success":             int64(adc.Success),
	"adc.Recoverable":         int64(adc.Recoverable),
	"adc.Fatal":               int64(adc.Fatal),
	"nmdc.TypeSeparator":      int64(nmdc.TypeSeparator),
	"nmdc.TypeRaw":            int64(nmdc.TypeRaw),
	"nmdc.TypeRawNickLimited": int64(nmdc.TypeRawNickLimited),
	"nmdc.TypeErase":          int64(nmdc.TypeErase),
	"nmdc.ContextHub":         int64(nmdc.ContextHub),
	"nmdc.ContextUser":        int64(nmdc.ContextUser),
	"nmdc.ContextSearch":      int64(nmdc.ContextSearch),
	"nmdc.ContextFileList":    int64(nmdc.ContextFileList),
	"nmdc.DataTypeAny":        int64(nmdc.DataTypeAny),
	"nmdc.DataTypeAudio":      int64(nmdc.DataTypeAudio),
	"nmdc.DataTypeCompressed": int64(nmdc.DataTypeCompressed),
	"nmdc.DataTypeDocument":   int64(nmdc.DataTypeDocument),
	"nmdc.DataTypeExecutable": int64(nmdc.DataTypeExecutable),
	"nmdc.DataTypePicture":    int64(nmdc.DataTypePicture),
	"nmdc.DataTypeVideo":      int64(nmdc.DataTypeVideo),
	"nmdc.DataTypeFolders":    int64(nmdc.DataTypeFolders),
	"nmdc.DataTypeTTH":        int64(nmdc.DataTypeTTH),
	"nmdc.DataTypeDiskImage":  int64(nmdc.DataTypeDiskImage),
	"nmdc.DataTypeComics":     int64(nmdc.DataTypeComics),
	"nmdc.DataTypeBook":       int64(nmdc.DataTypeBook),
	"nmdc.DataTypeMagnet":     int64(nmdc.DataTypeMagnet),
	"nmdc.UserModeUnknown":    int64(nmdc.UserModeUnknown),
	"nmdc.UserModeActive":     int64(nmdc.UserModeActive),
	"nmdc.UserModePassive":    int64(nmdc.UserModePassive),
	"nmdc.UserModeSOCKS5":     int64(nmdc.UserModeSOCKS5),
	"nmdc.FlagStatusNormal":   int64(nmdc.FlagStatusNormal),
	"nmdc.FlagStatusAway":     int64(nmdc.FlagStatusAway),
	"nmdc.FlagStatusServer":   int64(nmdc.FlagStatusServer),
	"nmdc.FlagStatusFireball": int64(nmdc.FlagStatusFireball),
	"nmdc.FlagTLSDownload":    int64(nmdc.FlagTLSDownload),
	"nmdc.FlagTLSUpload":      int64(nmdc.FlagTLSUpload),
	"nmdc.FlagIPv4":           int64(nmdc.FlagIPv4),
	"nmdc.FlagIPv6":           int64(nmdc.FlagIPv6),
	"nmdc.FlagTLS":            int64(nmdc.FlagTLS),
	"nmdc.DefaultKeyMagic":    int64(nmdc.DefaultKeyMagic),
	"nmdc.DefaultPort":        int64(nmdc.DefaultPort),
	"nmdc.Delimiter":          int64(nmdc.Delimiter),
}

var infoWords = map[string]string{
	"adc.FeaBASE":              adc.FeaBASE.String(),
	"adc.FeaBAS0":              adc.FeaBAS0.String(),
	"adc.FeaTIGR":              adc.FeaTIGR.String(),
	"adc.FeaPING":              adc.FeaPING.String(),
	"adc.FeaONID":              adc.FeaONID.String(),
	"adc.FeaBZIP":              adc.FeaBZIP.String(),
	"adc.FeaTS":                adc.FeaTS.String(),
	"adc.FeaZLIF":              adc.FeaZLIF.String(),
	"adc.FeaZLIG":              adc.FeaZLIG.String(),
	"adc.FeaSEGA":              adc.FeaSEGA.String(),
	"adc.FeaUCMD":              adc.FeaUCMD.String(),
	"adc.FeaUCM0":              adc.FeaUCM0.String(),
	"adc.FeaADCS":              adc.FeaADCS.String(),
	"adc.FeaADC0":              adc.FeaADC0.String(),
	"adc.FeaNAT0":              adc.FeaNAT0.String(),
	"adc.FeaASCH":              adc.FeaASCH.String(),
	"adc.FeaSUD1":              adc.FeaSUD1.String(),
	"adc.FeaSUDP":              adc.FeaSUDP.String(),
	"adc.FeaCCPM":              adc.FeaCCPM.String(),
	"adc.FeaBLO0":              adc.FeaBLO0.String(),
	"adc.FeaSIPR":              adc.FeaSIPR.String(),
	"adc.FeaTCP4":              adc.FeaTCP4.String(),
	"adc.FeaTCP6":              adc.FeaTCP6.String(),
	"adc.FeaUDP4":              adc.FeaUDP4.String(),
	"adc.FeaUDP6":              adc.FeaUDP6.String(),
	"adc.FileListBZIP":         adc.FileListBZIP,
	"adc.ProtoADC":             adc.ProtoADC,
	"adc.ProtoADCS":            adc.ProtoADCS,
	"adc.SchemaADC":            adc.SchemaADC,
	"adc.SchemaADCS":           adc.SchemaADCS,
	"nmdc.ExtNoHello":          nmdc.ExtNoHello,
	"nmdc.ExtNoGetINFO":        nmdc.ExtNoGetINFO,
	"nmdc.ExtUserCommand":      nmdc.ExtUserCommand,
	"nmdc.ExtUserIP2":          nmdc.ExtUserIP2,
	"nmdc.ExtTTHSearch":        nmdc.ExtTTHSearch,
	"nmdc.ExtZPipe0":           nmdc.ExtZPipe0,
	"nmdc.ExtTLS":              nmdc.ExtTLS,
	"nmdc.ExtADCGet":           nmdc.ExtADCGet,
	"nmdc.ExtBotINFO":          nmdc.ExtBotINFO,
	"nmdc.ExtHubINFO":          nmdc.ExtHubINFO,
	"nmdc.ExtHubTopic":         nmdc.ExtHubTopic,
	"nmdc.ExtBotList":          nmdc.ExtBotList,
	"nmdc.ExtIN":               nmdc.ExtIN,
	"nmdc.ExtMCTo":             nmdc.ExtMCTo,
	"nmdc.ExtNickChange":       nmdc.ExtNickChange,
	"nmdc.ExtClientNick":       nmdc.ExtClientNick,
	"nmdc.ExtFeaturedNetworks": nmdc.ExtFeaturedNetworks,
	"nmdc.ExtGetZBlock":        nmdc.ExtGetZBlock,
	"nmdc.ExtClientID":         nmdc.ExtClientID,
	"nmdc.ExtXmlBZList":        nmdc.ExtXmlBZList,
	"nmdc.ExtMinislots":        nmdc.ExtMinislots,
	"nmdc.ExtTTHL":             nmdc.ExtTTHL,
	"nmdc.ExtTTHF":             nmdc.ExtTTHF,
	"nmdc.ExtTTHS":             nmdc.ExtTTHS,
	"nmdc.ExtZLIG":             nmdc.ExtZLIG,
	"nmdc.ExtACTM":             nmdc.ExtACTM,
	"nmdc.ExtBZList":           nmdc.ExtBZList,
	"nmdc.ExtSaltPass":         nmdc.ExtSaltPass,
	"nmdc.ExtDHT0":             nmdc.ExtDHT0,
	"nmdc.ExtFailOver":         nmdc.ExtFailOver,
	"nmdc.ExtOpPlus":           nmdc.ExtOpPlus,
	"nmdc.ExtQuickList":        nmdc.ExtQuickList,
	"nmdc.ExtBanMsg":           nmdc.ExtBanMsg,
	"nmdc.ExtNickRule":         nmdc.ExtNickRule,
	"nmdc.ExtSearchRule":       nmdc.ExtSearchRule,
	"nmdc.ExtExtJSON2":         nmdc.ExtExtJSON2,
	"nmdc.ExtLocale":           nmdc.ExtLocale,
	"nmdc.ConnSpeedModem":      nmdc.ConnSpeedModem,
	"nmdc.ConnSpeedServer":     nmdc.ConnSpeedServer,
	"nmdc.SchemeNMDC":          nmdc.SchemeNMDC,
	"nmdc.SchemeNMDCS":         nmdc.SchemeNMDCS,
}
