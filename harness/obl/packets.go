package obl

import v "gpgverif/harness/verif"

func O_Tag01() { packetOf("tag1", 1) }
func O_Tag02() { packetOf("tag2", 2) }
func O_Tag03() { packetOf("tag3", 3) }
func O_Tag04() { packetOf("tag4", 4) }
func O_Tag05() { packetOf("tag5", 5) }
func O_Tag06() { packetOf("tag6", 6) }
func O_Tag07() { packetOf("tag7", 7) }
func O_Tag08() { packetOf("tag8", 8) }
func O_Tag09() { packetOf("tag9", 9) }
func O_Tag10() { packetOf("tag10", 10) }
func O_Tag11() { packetOf("tag11", 11) }
func O_Tag12() { packetOf("tag12", 12) }
func O_Tag13() { packetOf("tag13", 13) }
func O_Tag14() { packetOf("tag14", 14) }
func O_Tag17() { packetOf("tag17", 17) }
func O_Tag18() { packetOf("tag18", 18) }
func O_Tag19() { packetOf("tag19", 19) }
func O_Tag20() { packetOf("tag20", 20) }

// every other tag: private or unknown
func O_TagOther() {
	t := v.U8("tag")
	v.Assume(t == 0 || t == 15 || t == 16 || t > 20)
	packetOf("tag", t)
}
func crit(t uint8) uint8 {
	if v.Bool("critical") {
		return t | 0x80
	}
	return t
}

func O_Sub01() { subOf("sub1", 17, crit(1)) }
func O_Sub02() { subOf("sub2", 2, crit(2)) }
func O_Sub03() { subOf("sub3", 2, crit(3)) }
func O_Sub04() { subOf("sub4", 2, crit(4)) }
func O_Sub05() { subOf("sub5", 2, crit(5)) }
func O_Sub06() { subOf("sub6", 2, crit(6)) }
func O_Sub07() { subOf("sub7", 2, crit(7)) }
func O_Sub09() { subOf("sub9", 2, crit(9)) }
func O_Sub10() { subOf("sub10", 2, crit(10)) }
func O_Sub11() { subOf("sub11", 2, crit(11)) }
func O_Sub12() { subOf("sub12", 2, crit(12)) }
func O_Sub16() { subOf("sub16", 2, crit(16)) }
func O_Sub20() { subOf("sub20", 2, crit(20)) }
func O_Sub21() { subOf("sub21", 2, crit(21)) }
func O_Sub22() { subOf("sub22", 2, crit(22)) }
func O_Sub23() { subOf("sub23", 2, crit(23)) }
func O_Sub24() { subOf("sub24", 2, crit(24)) }
func O_Sub25() { subOf("sub25", 2, crit(25)) }
func O_Sub26() { subOf("sub26", 2, crit(26)) }
func O_Sub27() { subOf("sub27", 2, crit(27)) }
func O_Sub28() { subOf("sub28", 2, crit(28)) }
func O_Sub29() { subOf("sub29", 2, crit(29)) }
func O_Sub30() { subOf("sub30", 2, crit(30)) }
func O_Sub31() { subOf("sub31", 2, crit(31)) }
func O_Sub32() { subOf("sub32", 2, crit(32)) }
func O_Sub33() { subOf("sub33", 2, crit(33)) }
func O_Sub34() { subOf("sub34", 2, crit(34)) }
func O_Sub35() { subOf("sub35", 2, crit(35)) }
func O_Sub37() { subOf("sub37", 2, crit(37)) }
func O_Sub38() { subOf("sub38", 2, crit(38)) }

// every other type in a signature, every other type in a user attribute
func O_SubOther() {
	t := v.U8("type")
	k := t & 0x7f
	v.Assume(k <= 1 || k == 8 || k >= 13 && k <= 15 || k >= 17 && k <= 19 || k == 36 || k > 38)
	subOf("sub", 2, t)
}
func O_SubOther17() {
	t := v.U8("type")
	v.Assume(t&0x7f != 1)
	subOf("sub", 17, t)
}
