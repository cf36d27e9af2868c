// Code generated by mkreg.sh. DO NOT EDIT.

package obl

// All are the obligations by name.
var All = map[string]func(){
	"O_Add":            O_Add,
	"O_ArmText":        O_ArmText,
	"O_Command":        O_Command,
	"O_CommandFetch":   O_CommandFetch,
	"O_CommandGitHub":  O_CommandGitHub,
	"O_CommandHKP":     O_CommandHKP,
	"O_CommandVersion": O_CommandVersion,
	"O_Dump":           O_Dump,
	"O_DumpByte":       O_DumpByte,
	"O_DumpRest":       O_DumpRest,
	"O_Entry":          O_Entry,
	"O_GitHubBadUser":  O_GitHubBadUser,
	"O_GitHubKey":      O_GitHubKey,
	"O_GitHubUser":     O_GitHubUser,
	"O_HKP":            O_HKP,
	"O_HKPProtocol":    O_HKPProtocol,
	"O_JSON":           O_JSON,
	"O_OptionCode":     O_OptionCode,
	"O_OptionCodes":    O_OptionCodes,
	"O_OptionName":     O_OptionName,
	"O_OptionNew":      O_OptionNew,
	"O_OptionString":   O_OptionString,
	"O_Parse":          O_Parse,
	"O_ParseNil":       O_ParseNil,
	"O_ReaderByte":     O_ReaderByte,
	"O_ReaderBytes":    O_ReaderBytes,
	"O_ReaderDump":     O_ReaderDump,
	"O_ReaderNew":      O_ReaderNew,
	"O_ReaderRead":     O_ReaderRead,
	"O_ReaderReadAt":   O_ReaderReadAt,
	"O_ReaderSeek":     O_ReaderSeek,
	"O_ReaderToEOF":    O_ReaderToEOF,
	"O_ReaderWriteTo":  O_ReaderWriteTo,
	"O_ShowInfo":       O_ShowInfo,
	"O_ShowItem":       O_ShowItem,
	"O_ShowString":     O_ShowString,
	"O_Sub01":          O_Sub01,
	"O_Sub02":          O_Sub02,
	"O_Sub03":          O_Sub03,
	"O_Sub04":          O_Sub04,
	"O_Sub05":          O_Sub05,
	"O_Sub06":          O_Sub06,
	"O_Sub07":          O_Sub07,
	"O_Sub09":          O_Sub09,
	"O_Sub10":          O_Sub10,
	"O_Sub11":          O_Sub11,
	"O_Sub12":          O_Sub12,
	"O_Sub16":          O_Sub16,
	"O_Sub20":          O_Sub20,
	"O_Sub21":          O_Sub21,
	"O_Sub22":          O_Sub22,
	"O_Sub23":          O_Sub23,
	"O_Sub24":          O_Sub24,
	"O_Sub25":          O_Sub25,
	"O_Sub26":          O_Sub26,
	"O_Sub27":          O_Sub27,
	"O_Sub28":          O_Sub28,
	"O_Sub29":          O_Sub29,
	"O_Sub30":          O_Sub30,
	"O_Sub31":          O_Sub31,
	"O_Sub32":          O_Sub32,
	"O_Sub33":          O_Sub33,
	"O_Sub34":          O_Sub34,
	"O_Sub35":          O_Sub35,
	"O_Sub37":          O_Sub37,
	"O_Sub38":          O_Sub38,
	"O_SubOther":       O_SubOther,
	"O_SubOther17":     O_SubOther17,
	"O_Tag01":          O_Tag01,
	"O_Tag02":          O_Tag02,
	"O_Tag03":          O_Tag03,
	"O_Tag04":          O_Tag04,
	"O_Tag05":          O_Tag05,
	"O_Tag06":          O_Tag06,
	"O_Tag07":          O_Tag07,
	"O_Tag08":          O_Tag08,
	"O_Tag09":          O_Tag09,
	"O_Tag10":          O_Tag10,
	"O_Tag11":          O_Tag11,
	"O_Tag12":          O_Tag12,
	"O_Tag13":          O_Tag13,
	"O_Tag14":          O_Tag14,
	"O_Tag17":          O_Tag17,
	"O_Tag18":          O_Tag18,
	"O_Tag19":          O_Tag19,
	"O_Tag20":          O_Tag20,
	"O_TagOther":       O_TagOther,
}
