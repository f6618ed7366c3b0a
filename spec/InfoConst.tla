---------------------------- MODULE InfoConst -----------------------------
(* The values the protocols assign to what the interface has names for.        *)

Nums == {
  << "adc.UserTypeNone", 0 >>,
  << "adc.UserTypeBot", 1 >>,
  << "adc.UserTypeRegistered", 2 >>,
  << "adc.UserTypeOperator", 4 >>,
  << "adc.UserTypeSuperUser", 8 >>,
  << "adc.UserTypeHubOwner", 16 >>,
  << "adc.UserTypeHub", 32 >>,
  << "adc.UserTypeHidden", 64 >>,
  << "adc.AwayTypeNone", 0 >>,
  << "adc.AwayTypeNormal", 1 >>,
  << "adc.AwayTypeExtended", 2 >>,
  << "adc.CategoryHub", 1 >>,
  << "adc.CategoryUser", 2 >>,
  << "adc.CategorySearch", 4 >>,
  << "adc.CategoryFileList", 8 >>,
  << "adc.FileTypeAny", 0 >>,
  << "adc.FileTypeFile", 1 >>,
  << "adc.FileTypeDir", 2 >>,
  << "adc.ExtNone", 0 >>,
  << "adc.ExtAudio", 1 >>,
  << "adc.ExtArch", 2 >>,
  << "adc.ExtDoc", 4 >>,
  << "adc.ExtExe", 8 >>,
  << "adc.ExtImage", 16 >>,
  << "adc.ExtVideo", 32 >>,
  << "adc.Success", 0 >>,
  << "adc.Recoverable", 1 >>,
  << "adc.Fatal", 2 >>,
  << "nmdc.TypeSeparator", 0 >>,
  << "nmdc.TypeRaw", 1 >>,
  << "nmdc.TypeRawNickLimited", 2 >>,
  << "nmdc.TypeErase", 255 >>,
  << "nmdc.ContextHub", 1 >>,
  << "nmdc.ContextUser", 2 >>,
  << "nmdc.ContextSearch", 4 >>,
  << "nmdc.ContextFileList", 8 >>,
  << "nmdc.DataTypeAny", 1 >>,
  << "nmdc.DataTypeAudio", 2 >>,
  << "nmdc.DataTypeCompressed", 3 >>,
  << "nmdc.DataTypeDocument", 4 >>,
  << "nmdc.DataTypeExecutable", 5 >>,
  << "nmdc.DataTypePicture", 6 >>,
  << "nmdc.DataTypeVideo", 7 >>,
  << "nmdc.DataTypeFolders", 8 >>,
  << "nmdc.DataTypeTTH", 9 >>,
  << "nmdc.DataTypeDiskImage", 10 >>,
  << "nmdc.DataTypeComics", 11 >>,
  << "nmdc.DataTypeBook", 12 >>,
  << "nmdc.DataTypeMagnet", 13 >>,
  << "nmdc.UserModeUnknown", 0 >>,
  << "nmdc.UserModeActive", 65 >>,
  << "nmdc.UserModePassive", 80 >>,
  << "nmdc.UserModeSOCKS5", 53 >>,
  << "nmdc.FlagStatusNormal", 1 >>,
  << "nmdc.FlagStatusAway", 2 >>,
  << "nmdc.FlagStatusServer", 4 >>,
  << "nmdc.FlagStatusFireball", 8 >>,
  << "nmdc.FlagTLSDownload", 16 >>,
  << "nmdc.FlagTLSUpload", 32 >>,
  << "nmdc.FlagIPv4", 64 >>,
  << "nmdc.FlagIPv6", 128 >>,
  << "nmdc.FlagTLS", 48 >>,
  << "nmdc.DefaultKeyMagic", 5 >>,
  << "nmdc.DefaultPort", 411 >>,
  << "nmdc.Delimiter", 124 >>}

Words == {
  << "adc.FeaBASE", "BASE" >>,
  << "adc.FeaBAS0", "BAS0" >>,
  << "adc.FeaTIGR", "TIGR" >>,
  << "adc.FeaPING", "PING" >>,
  << "adc.FeaONID", "ONID" >>,
  << "adc.FeaBZIP", "BZIP" >>,
  << "adc.FeaTS", "TS00" >>,
  << "adc.FeaZLIF", "ZLIF" >>,
  << "adc.FeaZLIG", "ZLIG" >>,
  << "adc.FeaSEGA", "SEGA" >>,
  << "adc.FeaUCMD", "UCMD" >>,
  << "adc.FeaUCM0", "UCM0" >>,
  << "adc.FeaADCS", "ADCS" >>,
  << "adc.FeaADC0", "ADC0" >>,
  << "adc.FeaNAT0", "NAT0" >>,
  << "adc.FeaASCH", "ASCH" >>,
  << "adc.FeaSUD1", "SUD1" >>,
  << "adc.FeaSUDP", "SUDP" >>,
  << "adc.FeaCCPM", "CCPM" >>,
  << "adc.FeaBLO0", "BLO0" >>,
  << "adc.FeaSIPR", "SIPR" >>,
  << "adc.FeaTCP4", "TCP4" >>,
  << "adc.FeaTCP6", "TCP6" >>,
  << "adc.FeaUDP4", "UDP4" >>,
  << "adc.FeaUDP6", "UDP6" >>,
  << "adc.FileListBZIP", "files.xml.bz2" >>,
  << "adc.ProtoADC", "ADC/1.0" >>,
  << "adc.ProtoADCS", "ADCS/0.10" >>,
  << "adc.SchemaADC", "adc" >>,
  << "adc.SchemaADCS", "adcs" >>,
  << "nmdc.ExtNoHello", "NoHello" >>,
  << "nmdc.ExtNoGetINFO", "NoGetINFO" >>,
  << "nmdc.ExtUserCommand", "UserCommand" >>,
  << "nmdc.ExtUserIP2", "UserIP2" >>,
  << "nmdc.ExtTTHSearch", "TTHSearch" >>,
  << "nmdc.ExtZPipe0", "ZPipe0" >>,
  << "nmdc.ExtTLS", "TLS" >>,
  << "nmdc.ExtADCGet", "ADCGet" >>,
  << "nmdc.ExtBotINFO", "BotINFO" >>,
  << "nmdc.ExtHubINFO", "HubINFO" >>,
  << "nmdc.ExtHubTopic", "HubTopic" >>,
  << "nmdc.ExtBotList", "BotList" >>,
  << "nmdc.ExtIN", "IN" >>,
  << "nmdc.ExtMCTo", "MCTo" >>,
  << "nmdc.ExtNickChange", "NickChange" >>,
  << "nmdc.ExtClientNick", "ClientNick" >>,
  << "nmdc.ExtFeaturedNetworks", "FeaturedNetworks" >>,
  << "nmdc.ExtGetZBlock", "GetZBlock" >>,
  << "nmdc.ExtClientID", "ClientID" >>,
  << "nmdc.ExtXmlBZList", "XmlBZList" >>,
  << "nmdc.ExtMinislots", "Minislots" >>,
  << "nmdc.ExtTTHL", "TTHL" >>,
  << "nmdc.ExtTTHF", "TTHF" >>,
  << "nmdc.ExtTTHS", "TTHS" >>,
  << "nmdc.ExtZLIG", "ZLIG" >>,
  << "nmdc.ExtACTM", "ACTM" >>,
  << "nmdc.ExtBZList", "BZList" >>,
  << "nmdc.ExtSaltPass", "SaltPass" >>,
  << "nmdc.ExtDHT0", "DHT0" >>,
  << "nmdc.ExtFailOver", "FailOver" >>,
  << "nmdc.ExtOpPlus", "OpPlus" >>,
  << "nmdc.ExtQuickList", "QuickList" >>,
  << "nmdc.ExtBanMsg", "BanMsg" >>,
  << "nmdc.ExtNickRule", "NickRule" >>,
  << "nmdc.ExtSearchRule", "SearchRule" >>,
  << "nmdc.ExtExtJSON2", "ExtJSON2" >>,
  << "nmdc.ExtLocale", "Locale" >>,
  << "nmdc.ConnSpeedModem", "1" >>,
  << "nmdc.ConnSpeedServer", "1000" >>,
  << "nmdc.SchemeNMDC", "dchub" >>,
  << "nmdc.SchemeNMDCS", "nmdcs" >>}
=============================================================================
