----------------------------- MODULE MachTable -----------------------------
(* The machine instructions: format and operands of each instruction (and   *)
(* how many of the last operands may be left out), grouped by format; the    *)
(* extended mnemonics: instruction they stand for, operand positions they    *)
(* fix and the value of each.                                                *)
EXTENDS TLC
(* <<format, operands, optional operands, mnemonics>> *)
Groups == <<
 <<"E", <<>>, 0, {
    "PFPO", "PR", "PTFF", "SAM24", "SAM31", "SAM64", "SCKPF", "TAM", "TRAP2", "UPT" }>>,
 <<"I", <<"imm8u">>, 0, {
    "SVC" }>>,
 <<"IE", <<"imm4u", "imm4u">>, 0, {
    "NIAI" }>>,
 <<"MII", <<"mask", "rel12", "rel24">>, 0, {
    "BPRP" }>>,
 <<"RIE_a", <<"reg", "imm16s", "mask">>, 0, {
    "CGIT", "CIT", "CLFIT", "CLGIT" }>>,
 <<"RIE_b", <<"reg", "reg", "mask", "rel16">>, 0, {
    "CGRJ", "CLGRJ", "CLRJ", "CRJ" }>>,
 <<"RIE_c", <<"reg", "imm8s", "mask", "rel16">>, 0, {
    "CGIJ", "CIJ", "CLGIJ", "CLIJ" }>>,
 <<"RIE_d", <<"reg", "reg", "imm16s">>, 0, {
    "AGHIK", "AHIK", "ALGHSIK", "ALHSIK" }>>,
 <<"RIE_e", <<"reg", "reg", "rel16">>, 0, {
    "BRXHG", "BRXLG" }>>,
 <<"RIE_f", <<"reg", "reg", "imm8s", "imm8s", "imm8s">>, 1, {
    "RISBG", "RISBGN", "RISBGNZ", "RISBGZ", "RISBHG", "RISBHGZ", "RISBLG", "RISBLGZ", "RNSBG", "RNSBGT",
    "ROSBG", "ROSBGT", "RXSBG", "RXSBGT" }>>,
 <<"RIE_g", <<"reg", "imm16s", "mask">>, 0, {
    "LOCGHI", "LOCHHI", "LOCHI" }>>,
 <<"RIL_a", <<"reg", "imm32s">>, 0, {
    "AFI", "AGFI", "AIH", "ALFI", "ALGFI", "ALSIH", "ALSIHN", "CFI", "CGFI", "CIH", "CLFI", "CLGFI", "CLIH",
    "IIHF", "IILF", "LGFI", "LLIHF", "LLILF", "MSFI", "MSGFI", "NIHF", "NILF", "OIHF", "OILF", "SLFI",
    "SLGFI", "XIHF", "XILF" }>>,
 <<"RIL_b", <<"reg", "imm32s">>, 0, {
    "EXRL", "LGHRL", "LHRL" }>>,
 <<"RIL_b", <<"reg", "rel32">>, 0, {
    "BRASL", "BRCTH", "CGFRL", "CGHRL", "CGRL", "CHRL", "CLGFRL", "CLGHRL", "CLGRL", "CLHRL", "CLRL", "CRL",
    "LARL", "LGFRL", "LGRL", "LLGFRL", "LLGHRL", "LLHRL", "LRL", "STGRL", "STHRL", "STRL" }>>,
 <<"RIL_c", <<"mask", "rel32">>, 0, {
    "BRCL", "PFDRL" }>>,
 <<"RIS", <<"reg", "imm8s", "mask", "db12">>, 0, {
    "CGIB", "CIB", "CLGIB", "CLIB" }>>,
 <<"RI_a", <<"reg", "imm16s">>, 0, {
    "AGHI", "AHI", "CGHI", "CHI", "LGHI", "LHI", "LLIHH", "LLIHL", "LLILH", "LLILL", "MGHI", "MHI", "OIHH",
    "OIHL", "OILH", "OILL" }>>,
 <<"RI_a", <<"reg", "imm16u">>, 0, {
    "IIHH", "IIHL", "IILH", "IILL", "NIHH", "NIHL", "NILH", "NILL", "TMH", "TMHH", "TMHL", "TML", "TMLH",
    "TMLL", "VACD", "VACE", "VAD", "VADS", "VAE", "VAES", "VAS", "VC", "VCD", "VCDS", "VCE", "VCES", "VCS",
    "VDD", "VDDS", "VDE", "VDES", "VLD", "VLH", "VLINT", "VLMD", "VLY", "VLYD", "VM", "VMAD", "VMADS",
    "VMAES", "VMCD", "VMCE", "VMD", "VMDS", "VMES", "VMS", "VMSD", "VMSDS", "VMSE", "VMSES", "VNS", "VOS",
    "VSD", "VSDS", "VSE", "VSES", "VSS", "VSTD", "VSTH", "VSTK", "VSTKD", "VSTMD", "VXS" }>>,
 <<"RI_b", <<"reg", "rel16">>, 0, {
    "BRAS", "BRCT", "BRCTG" }>>,
 <<"RI_c", <<"mask", "rel16">>, 0, {
    "BRC" }>>,
 <<"RR", <<"mask", "reg">>, 0, {
    "BCR" }>>,
 <<"RR", <<"reg">>, 0, {
    "SPM" }>>,
 <<"RR", <<"reg", "reg">>, 0, {
    "ADR", "AER", "ALR", "AR", "AUR", "AWR", "AXR", "BALR", "BASR", "BCTR", "BSM", "CDR", "CER", "CLCL",
    "CLR", "CR", "DDR", "DER", "DR", "HDR", "HER", "ISK", "LCDR", "LCER", "LCR", "LDR", "LDXR", "LEDR", "LER",
    "LNDR", "LNER", "LNR", "LPDR", "LPER", "LPR", "LR", "LRDR", "LRER", "LTDR", "LTER", "LTR", "MDER", "MDR",
    "MER", "MR", "MVCL", "MXDR", "MXR", "NR", "OR", "SDR", "SER", "SLR", "SR", "SSK", "SUR", "SWR", "SXR",
    "XR" }>>,
 <<"RRD", <<"reg", "reg", "reg">>, 0, {
    "MADBR", "MADR", "MAEBR", "MAER", "MAYHR", "MAYLR", "MAYR", "MSDBR", "MSDR", "MSEBR", "MSER", "MYHR",
    "MYLR", "MYR" }>>,
 <<"RRE", <<>>, 0, {
    "PALB", "PCC", "PCKMO" }>>,
 <<"RRE", <<"reg">>, 0, {
    "EFPC", "EPAIR", "EPAR", "ESAIR", "ESAR", "ESEA", "ETND", "IAC", "IPM", "LZDR", "LZER", "LZXR", "MSTA",
    "PTF", "SFASR", "SFPC", "SSAIR", "SSAR" }>>,
 <<"RRE", <<"reg", "reg">>, 0, {
    "ADBR", "ADDFRR", "AEBR", "AGFR", "AGR", "ALCGR", "ALCR", "ALGFR", "ALGR", "AXBR", "BAKR", "BCTGR", "BSA",
    "BSG", "CDBR", "CDFBR", "CDFR", "CDGBR", "CDGR", "CDGTR", "CDSTR", "CDTR", "CDUTR", "CEBR", "CEDTR",
    "CEFBR", "CEFR", "CEGBR", "CEGR", "CEXTR", "CGFR", "CGR", "CHHR", "CHLR", "CKSM", "CLGFR", "CLGR",
    "CLHHR", "CLHLR", "CLST", "CMPSC", "CPYA", "CSP", "CSPG", "CU41", "CU42", "CUDTR", "CUSE", "CUXTR",
    "CXBR", "CXFBR", "CXFR", "CXGBR", "CXGR", "CXGTR", "CXR", "CXSTR", "CXTR", "CXUTR", "DDBR", "DEBR",
    "DLGR", "DLR", "DSGFR", "DSGR", "DXBR", "DXR", "EAR", "ECCTR", "ECPGA", "EEDTR", "EEXTR", "EPCTR", "EPSW",
    "EREG", "EREGG", "ESDTR", "ESTA", "ESXTR", "FIDR", "FIER", "FIXR", "FLOGR", "IRBM", "ISKE", "IVSK",
    "KDBR", "KDSA", "KDTR", "KEBR", "KIMD", "KLMD", "KM", "KMAC", "KMC", "KMF", "KMO", "KXBR", "KXTR", "LBR",
    "LCDBR", "LCDFR", "LCEBR", "LCGFR", "LCGR", "LCXBR", "LCXR", "LDEB", "LDEBR", "LDER", "LDGR", "LDXBR",
    "LEDBR", "LEXBR", "LEXR", "LGBR", "LGDR", "LGFR", "LGHR", "LGR", "LHR", "LLCR", "LLGCR", "LLGFR", "LLGHR",
    "LLGTR", "LLHR", "LNDBR", "LNDFR", "LNEBR", "LNGFR", "LNGR", "LNXBR", "LNXR", "LPDBR", "LPDFR", "LPEBR",
    "LPGFR", "LPGR", "LPXBR", "LPXR", "LRVGR", "LRVR", "LTDBR", "LTDTR", "LTEBR", "LTGFR", "LTGR", "LTXBR",
    "LTXR", "LTXTR", "LURA", "LURAG", "LXDB", "LXDBR", "LXDR", "LXEB", "LXEBR", "LXER", "LXR", "MDBR",
    "MDEBR", "MEEBR", "MEER", "MLGR", "MLR", "MSGFR", "MSGR", "MSR", "MVPG", "MVST", "MXBR", "MXDBR", "NGR",
    "OGR", "PFMF", "PGIN", "PGOUT", "PPNO", "PRNO", "PT", "PTI", "RRBE", "RRBM", "SAR", "SCCTR", "SDBR",
    "SEBR", "SGFR", "SGR", "SLBGR", "SLBR", "SLGFR", "SLGR", "SORTL", "SPCTR", "SQDBR", "SQDR", "SQEBR",
    "SQER", "SQXBR", "SQXR", "SRST", "SRSTU", "STURA", "STURG", "SXBR", "TAR", "TB", "THDER", "THDR", "TPEI",
    "TRE", "VACRS", "VACSV", "VCOVM", "VCVM", "VCZVM", "VLBIX", "VLCVM", "VLELD", "VLELE", "VLI", "VLID",
    "VLVCA", "VLVCU", "VLVM", "VMNSD", "VMNSE", "VMRRS", "VMRSV", "VMXAD", "VMXAE", "VMXSE", "VNVM", "VOVM",
    "VRCL", "VRRS", "VRSV", "VRSVC", "VSLL", "VSPSD", "VSRRS", "VSRSV", "VSTI", "VSTID", "VSTVM", "VSTVP",
    "VSVMM", "VTVM", "VXELD", "VXELE", "VXVC", "VXVM", "VXVMM", "VZPSD", "XGR" }>>,
 <<"RRF_a", <<"reg", "reg", "reg">>, 0, {
    "ADTR", "AGRK", "AHHHR", "AHHLR", "ALGRK", "ALHHHR", "ALHHLR", "ALRK", "ARK", "AXTR", "DDTR", "DFLTCC",
    "DXTR", "MDTR", "MGRK", "MSGRKC", "MSRKC", "MXTR", "NCGRK", "NCRK", "NGRK", "NNGRK", "NNRK", "NOGRK",
    "NORK", "NRK", "NXGRK", "NXRK", "OCGRK", "OCRK", "OGRK", "ORK", "SDTR", "SGRK", "SHHHR", "SHHLR", "SLGRK",
    "SLHHHR", "SLHHLR", "SLRK", "SRK", "SXTR", "XGRK", "XRK" }>>,
 <<"RRF_a", <<"reg", "reg", "reg", "mask">>, 0, {
    "ADTRA", "AXTRA", "DDTRA", "DXTRA", "MDTRA", "MXTRA", "SDTRA", "SELFHR", "SELGR", "SELR", "SXTRA" }>>,
 <<"RRF_a", <<"reg", "reg", "reg", "mask">>, 2, {
    "IPTE" }>>,
 <<"RRF_b", <<"reg", "reg", "reg">>, 0, {
    "CPSDR", "IEDTR", "IEXTR", "KMA", "KMCTR" }>>,
 <<"RRF_b", <<"reg", "reg", "reg", "mask">>, 0, {
    "DIDBR", "DIEBR", "LPTEA", "QADTR", "QAXTR", "RRDTR", "RRXTR" }>>,
 <<"RRF_b", <<"reg", "reg", "reg", "mask">>, 1, {
    "CRDTE", "IDTE" }>>,
 <<"RRF_c", <<"reg", "reg", "mask">>, 0, {
    "CGRT", "CLGRT", "CLRT", "CRT", "CU21", "CUUTF", "LOCFHR", "LOCGR", "LOCR", "PPA" }>>,
 <<"RRF_c", <<"reg", "reg", "mask">>, 1, {
    "CU12", "CU14", "CU24", "CUTFU", "POPCNT", "SSKE", "TROO", "TROT", "TRTE", "TRTO", "TRTRE", "TRTT" }>>,
 <<"RRF_d", <<"reg", "reg", "mask">>, 0, {
    "CSDTR", "CSXTR", "LDETR", "LXDTR" }>>,
 <<"RRF_e", <<"reg", "mask", "reg">>, 0, {
    "CFDBR", "CFDR", "CFEBR", "CFER", "CFXBR", "CFXR", "CGDBR", "CGDR", "CGDTR", "CGEBR", "CGER", "CGXBR",
    "CGXR", "CGXTR", "FIDBR", "FIEBR", "FIXBR", "TBDR", "TBEDR" }>>,
 <<"RRF_e", <<"reg", "mask", "reg", "mask">>, 0, {
    "CDFBRA", "CDFTR", "CDGBRA", "CDGTRA", "CDLFBR", "CDLFTR", "CDLGBR", "CDLGTR", "CEFBRA", "CEGBRA",
    "CELFBR", "CELGBR", "CFDBRA", "CFDTR", "CFEBRA", "CFXBRA", "CFXTR", "CGDBRA", "CGDTRA", "CGEBRA",
    "CGXBRA", "CGXTRA", "CLFDBR", "CLFDTR", "CLFEBR", "CLFXBR", "CLFXTR", "CLGDBR", "CLGDTR", "CLGEBR",
    "CLGXBR", "CLGXTR", "CXFBRA", "CXFTR", "CXGBRA", "CXGTRA", "CXLFBR", "CXLFTR", "CXLGBR", "CXLGTR",
    "FIDBRA", "FIDTR", "FIEBRA", "FIXBRA", "FIXTR", "LDXBRA", "LDXTR", "LEDBRA", "LEDTR", "LEXBRA" }>>,
 <<"RRS", <<"reg", "reg", "mask", "db12">>, 0, {
    "CGRB", "CLGRB", "CLRB", "CRB" }>>,
 <<"RSI", <<"reg", "reg", "rel16">>, 0, {
    "BRXH", "BRXLE" }>>,
 <<"RSL_a", <<"dlb4">>, 0, {
    "TP" }>>,
 <<"RSL_b", <<"reg", "dlb8", "mask">>, 0, {
    "CDPT", "CDZT", "CPDT", "CPXT", "CXPT", "CXZT", "CZDT", "CZXT" }>>,
 <<"RSY_a", <<"reg", "reg", "db20">>, 0, {
    "BXHG", "BXLEG", "CDSG", "CDSY", "CLCLU", "CSG", "CSY", "ECAG", "LAA", "LAAG", "LAAL", "LAALG", "LAMY",
    "LAN", "LANG", "LAO", "LAOG", "LAX", "LAXG", "LCTLG", "LMG", "LMH", "LMY", "MVCLU", "RLL", "RLLG", "SLAG",
    "SLAK", "SLLG", "SLLK", "SRAG", "SRAK", "SRLG", "SRLK", "STAMY", "STCTG", "STMG", "STMH", "STMY", "TRACG" }>>,
 <<"RSY_b", <<"reg", "db20", "mask">>, 0, {
    "LOC", "LOCFH", "LOCG", "STOC", "STOCFH", "STOCG" }>>,
 <<"RSY_b", <<"reg", "mask", "db20">>, 0, {
    "CLMH", "CLMY", "ICMH", "ICMY", "STCMH", "STCMY" }>>,
 <<"RSY_b", <<"reg", "mask", "dxb20">>, 0, {
    "CLGT", "CLT" }>>,
 <<"RS_a", <<"reg", "db12">>, 0, {
    "SLA", "SLDA", "SLDL", "SLL", "SRA", "SRDA", "SRDL", "SRL" }>>,
 <<"RS_a", <<"reg", "reg", "db12">>, 0, {
    "BXH", "BXLE", "CDS", "CLCLE", "CS", "LAM", "LCTL", "LM", "MVCLE", "SIGP", "STAM", "STCTL", "STM",
    "TRACE" }>>,
 <<"RS_b", <<"reg", "mask", "db12">>, 0, {
    "CLM", "ICM", "STCM" }>>,
 <<"RXE", <<"reg", "dxb12">>, 0, {
    "ADB", "AEB", "CDB", "CEB", "DDB", "DEB", "KDB", "KEB", "LDE", "LXD", "LXE", "MDB", "MDEB", "MEE", "MEEB",
    "MXDB", "SDB", "SEB", "SQD", "SQDB", "SQE", "SQEB", "TCDB", "TCEB", "TCXB", "TDCDT", "TDCET", "TDCXT",
    "TDGDT", "TDGET", "TDGXT" }>>,
 <<"RXE", <<"reg", "dxb12", "mask">>, 0, {
    "LCBB" }>>,
 <<"RXF", <<"reg", "reg", "dxb12">>, 0, {
    "MAD", "MADB", "MAE", "MAEB", "MAY", "MAYH", "MAYL", "MSD", "MSDB", "MSE", "MSEB", "MY", "MYH", "MYL",
    "SLDT", "SLXT", "SRDT", "SRXT" }>>,
 <<"RXY_a", <<"reg", "dxb20">>, 0, {
    "AG", "AGF", "AGH", "AHY", "ALC", "ALCG", "ALG", "ALGF", "ALY", "AY", "BCTG", "CG", "CGF", "CGH", "CHF",
    "CHY", "CLG", "CLGF", "CLHF", "CLY", "CVBG", "CVBY", "CVDG", "CVDY", "CY", "DL", "DLG", "DSG", "DSGF",
    "ICY", "LAEY", "LAT", "LAY", "LB", "LBH", "LDY", "LEY", "LFH", "LFHAT", "LG", "LGAT", "LGB", "LGF", "LGG",
    "LGH", "LGSC", "LHH", "LHY", "LLC", "LLCH", "LLGC", "LLGF", "LLGFAT", "LLGFSG", "LLGH", "LLGT", "LLGTAT",
    "LLH", "LLHH", "LLZRGF", "LPQ", "LRAG", "LRAY", "LRV", "LRVG", "LRVH", "LT", "LTG", "LTGF", "LY", "LZRF",
    "LZRG", "MFY", "MG", "MGH", "MHY", "ML", "MLG", "MSC", "MSG", "MSGC", "MSGF", "MSY", "NG", "NTSTG", "NY",
    "OG", "OY", "SG", "SGF", "SGH", "SHY", "SLB", "SLBG", "SLG", "SLGF", "SLY", "STCH", "STCY", "STDY",
    "STEY", "STFH", "STG", "STGSC", "STHH", "STHY", "STPQ", "STRV", "STRVG", "STRVH", "STY", "SY", "XG", "XY" }>>,
 <<"RXY_b", <<"mask", "dxb20">>, 0, {
    "BIC", "PFD" }>>,
 <<"RX_a", <<"reg", "dxb12">>, 0, {
    "A", "AD", "AE", "AH", "AL", "AU", "AW", "BAL", "BAS", "BCT", "C", "CD", "CE", "CH", "CL", "CVB", "CVD",
    "D", "DD", "DE", "EX", "IC", "L", "LA", "LAE", "LD", "LE", "LH", "LRA", "M", "MD", "MDE", "ME", "MH",
    "MS", "MXD", "N", "O", "S", "SD", "SE", "SH", "SL", "ST", "STC", "STD", "STE", "STH", "SU", "SW", "X" }>>,
 <<"RX_a", <<"reg", "reg">>, 0, {
    "BASSM" }>>,
 <<"RX_b", <<"mask", "dxb12">>, 0, {
    "BC" }>>,
 <<"S", <<>>, 0, {
    "CSCH", "HSCH", "IPK", "PTLB", "RCHP", "RSCH", "SAL", "SCHM", "TEND", "XSCH" }>>,
 <<"S", <<"db12">>, 0, {
    "CFC", "CLRCH", "CLRIO", "CONCS", "DISCS", "HDV", "HIO", "LCCTL", "LFAS", "LFPC", "LPCTL", "LPP", "LPSWE",
    "LSCTL", "MSCH", "PC", "QCTRI", "QSI", "RP", "RRB", "SAC", "SACF", "SCK", "SCKC", "SIE", "SIO", "SIOF",
    "SPKA", "SPT", "SPX", "SRNM", "SRNMB", "SRNMT", "SSCH", "STAP", "STCK", "STCKC", "STCKE", "STCKF",
    "STCPS", "STCRW", "STFL", "STFPC", "STIDC", "STIDP", "STPT", "STPX", "STSCH", "STSI", "TABORT", "TCH",
    "TIO", "TPI", "TRAP4", "TSCH" }>>,
 <<"S", <<"db20">>, 0, {
    "STFLE" }>>,
 <<"SI", <<"db12">>, 0, {
    "LPSW", "SSM", "TS" }>>,
 <<"SI", <<"db12", "imm8s">>, 0, {
    "MC", "STNSM", "STOSM", "XI" }>>,
 <<"SI", <<"db12", "imm8u">>, 0, {
    "CLI", "MVI", "NI", "OI", "TM" }>>,
 <<"SIL", <<"db12", "imm16s">>, 0, {
    "CGHSI", "CHHSI", "CHSI", "MVGHI", "MVHHI", "MVHI", "TBEGIN", "TBEGINC" }>>,
 <<"SIL", <<"db12", "imm16u">>, 0, {
    "CLFHSI", "CLGHSI", "CLHHSI" }>>,
 <<"SIY", <<"db12", "imm8u">>, 0, {
    "CLIY", "MVIY" }>>,
 <<"SIY", <<"db20", "imm8s">>, 0, {
    "AGSI", "ALGSI", "ALSI", "ASI", "XIY" }>>,
 <<"SIY", <<"db20", "imm8u">>, 0, {
    "NIY", "OIY", "TMY" }>>,
 <<"SMI", <<"mask", "rel16", "db12">>, 0, {
    "BPP" }>>,
 <<"SSE", <<"db12", "db12">>, 0, {
    "LASP", "MVCDK", "MVCRL", "MVCSK", "STRAG", "TPROT" }>>,
 <<"SSF", <<"db12", "db12", "reg">>, 0, {
    "CSST", "ECTG", "MVCOS" }>>,
 <<"SSF", <<"reg", "db12", "db12">>, 0, {
    "LPD", "LPDG" }>>,
 <<"SS_a", <<"dlb8", "db12">>, 0, {
    "CLC", "ED", "EDMK", "MVC", "MVCIN", "MVN", "MVZ", "NC", "OC", "TR", "TRT", "TRTR", "UNPKA", "UNPKU" }>>,
 <<"SS_a", <<"dlb8", "db20">>, 0, {
    "XC" }>>,
 <<"SS_b", <<"dlb4", "dlb4">>, 0, {
    "AP", "CP", "DP", "MP", "MVO", "PACK", "SP", "UNPK", "ZAP" }>>,
 <<"SS_c", <<"dlb4", "db12", "imm4u">>, 0, {
    "SRP" }>>,
 <<"SS_d", <<"drb12", "db12", "reg">>, 0, {
    "MVCK", "MVCP", "MVCS" }>>,
 <<"SS_e", <<"reg", "db12", "reg", "db12">>, 0, {
    "PLO" }>>,
 <<"SS_e", <<"reg", "reg", "db12", "db12">>, 0, {
    "LMD" }>>,
 <<"SS_f", <<"db12", "dlb8">>, 0, {
    "PKA", "PKU" }>>,
 <<"VRI_a", <<"vec", "imm16s", "mask">>, 0, {
    "VLEIB", "VLEIF", "VLEIG", "VLEIH", "VREPI" }>>,
 <<"VRI_a", <<"vec", "imm16u">>, 0, {
    "VGBM" }>>,
 <<"VRI_b", <<"vec", "imm8u", "imm8u", "mask">>, 0, {
    "VGM" }>>,
 <<"VRI_c", <<"vec", "vec", "imm16u", "mask">>, 0, {
    "VREP" }>>,
 <<"VRI_d", <<"vec", "vec", "vec", "imm8u">>, 0, {
    "VSLD", "VSLDB", "VSRD" }>>,
 <<"VRI_d", <<"vec", "vec", "vec", "imm8u", "mask">>, 0, {
    "VERIM" }>>,
 <<"VRI_e", <<"vec", "vec", "imm12s", "mask", "mask">>, 0, {
    "VFTCI" }>>,
 <<"VRI_f", <<"vec", "vec", "vec", "imm8u", "mask">>, 0, {
    "VAP", "VDP", "VMP", "VMSP", "VRP", "VSDP", "VSP" }>>,
 <<"VRI_g", <<"vec", "vec", "imm8u", "imm8s", "mask">>, 0, {
    "VSRP" }>>,
 <<"VRI_g", <<"vec", "vec", "imm8u", "imm8u", "mask">>, 0, {
    "VPSOP" }>>,
 <<"VRI_h", <<"vec", "imm16s", "imm4u">>, 0, {
    "VLIP" }>>,
 <<"VRI_i", <<"vec", "reg", "imm8s", "mask">>, 0, {
    "VCVD", "VCVDG" }>>,
 <<"VRR_a", <<"vec", "vec">>, 0, {
    "VLR", "VTM" }>>,
 <<"VRR_a", <<"vec", "vec", "mask">>, 0, {
    "VCLZ", "VCTZ", "VEC", "VECL", "VLC", "VLP", "VPOPCT", "VSEG", "VUPH", "VUPL", "VUPLH", "VUPLL" }>>,
 <<"VRR_a", <<"vec", "vec", "mask", "mask">>, 0, {
    "VFLL", "VFSQ", "WFC", "WFK" }>>,
 <<"VRR_a", <<"vec", "vec", "mask", "mask">>, 1, {
    "VISTR" }>>,
 <<"VRR_a", <<"vec", "vec", "mask", "mask", "mask">>, 0, {
    "VCFPL", "VCFPS", "VCLFP", "VCLGD", "VCSFP", "VFI", "VFLR", "VFPSO" }>>,
 <<"VRR_b", <<"vec", "vec", "vec", "mask", "mask">>, 0, {
    "VCEQ", "VCH", "VCHL", "VPKLS", "VPKS" }>>,
 <<"VRR_b", <<"vec", "vec", "vec", "mask", "mask">>, 1, {
    "VFAE", "VFEE", "VFENE" }>>,
 <<"VRR_c", <<"vec", "vec", "vec">>, 0, {
    "VBPERM", "VCKSM", "VN", "VNC", "VNN", "VNO", "VNX", "VO", "VOC", "VSL", "VSLB", "VSRA", "VSRAB", "VSRL",
    "VSRLB", "VX" }>>,
 <<"VRR_c", <<"vec", "vec", "vec", "mask">>, 0, {
    "VA", "VACC", "VAVG", "VAVGL", "VERLLV", "VESLV", "VESRAV", "VESRLV", "VGFM", "VME", "VMH", "VML", "VMLE",
    "VMLH", "VMLO", "VMN", "VMNL", "VMO", "VMRH", "VMRL", "VMX", "VMXL", "VPDI", "VPK", "VS", "VSCBI", "VSUM",
    "VSUMG", "VSUMQ" }>>,
 <<"VRR_c", <<"vec", "vec", "vec", "mask", "mask">>, 0, {
    "VFA", "VFD", "VFM", "VFS" }>>,
 <<"VRR_c", <<"vec", "vec", "vec", "mask", "mask", "mask">>, 0, {
    "VFCE", "VFCH", "VFCHE", "VFMAX", "VFMIN" }>>,
 <<"VRR_d", <<"vec", "vec", "vec", "vec", "mask">>, 0, {
    "VAC", "VACCC", "VGFMA", "VMAE", "VMAH", "VMAL", "VMALE", "VMALH", "VMALO", "VMAO", "VSBCBI", "VSBI" }>>,
 <<"VRR_d", <<"vec", "vec", "vec", "vec", "mask", "mask">>, 0, {
    "VMSL" }>>,
 <<"VRR_d", <<"vec", "vec", "vec", "vec", "mask", "mask">>, 1, {
    "VSTRC", "VSTRS" }>>,
 <<"VRR_e", <<"vec", "vec", "vec", "vec">>, 0, {
    "VPERM", "VSEL" }>>,
 <<"VRR_e", <<"vec", "vec", "vec", "vec", "mask", "mask">>, 0, {
    "VFMA", "VFMS", "VFNMA", "VFNMS" }>>,
 <<"VRR_f", <<"vec", "reg", "reg">>, 0, {
    "VLVGP" }>>,
 <<"VRR_g", <<"vec">>, 0, {
    "VTP" }>>,
 <<"VRR_h", <<"vec", "vec", "mask">>, 0, {
    "VCP" }>>,
 <<"VRR_i", <<"reg", "vec", "mask">>, 0, {
    "VCVB", "VCVBG" }>>,
 <<"VRS_a", <<"vec", "vec", "db12", "mask">>, 0, {
    "VERLL", "VESL", "VESRA", "VESRL" }>>,
 <<"VRS_a", <<"vec", "vec", "db12", "mask">>, 1, {
    "VLM", "VSTM" }>>,
 <<"VRS_b", <<"vec", "reg", "db12">>, 0, {
    "VLL", "VSTL" }>>,
 <<"VRS_b", <<"vec", "reg", "db12", "mask">>, 0, {
    "VLVG" }>>,
 <<"VRS_c", <<"reg", "vec", "db12", "mask">>, 0, {
    "VLGV" }>>,
 <<"VRS_d", <<"vec", "reg", "db12">>, 0, {
    "VLRLR", "VSTRLR" }>>,
 <<"VRV", <<"vec", "dvb12", "mask">>, 0, {
    "VGEF", "VGEG", "VSCEF", "VSCEG" }>>,
 <<"VRX", <<"vec", "dxb12", "mask">>, 0, {
    "VLBB", "VLBR", "VLBRREP", "VLEB", "VLEBRG", "VLEBRH", "VLEF", "VLEG", "VLEH", "VLER", "VLLEBRZ", "VLLEZ",
    "VLREP", "VSTBR", "VSTEB", "VSTEBRF", "VSTEBRG", "VSTEBRH", "VSTEF", "VSTEG", "VSTEH", "VSTER" }>>,
 <<"VRX", <<"vec", "dxb12", "mask">>, 1, {
    "VL", "VST" }>>,
 <<"VSI", <<"vec", "db12", "imm8u">>, 0, {
    "VLRL", "VPKZ", "VSTRL", "VUPKZ" }>>
>>
(* extended mnemonic |-> <<instruction, <<position, value>>, ...>>; positions count from 1 *)
Extended == [
 B |-> <<"BC", <<<<1, 15>>>>>>,
 BE |-> <<"BC", <<<<1, 8>>>>>>,
 BER |-> <<"BCR", <<<<1, 8>>>>>>,
 BH |-> <<"BC", <<<<1, 2>>>>>>,
 BHR |-> <<"BCR", <<<<1, 2>>>>>>,
 BI |-> <<"BIC", <<<<1, 15>>>>>>,
 BIE |-> <<"BIC", <<<<1, 8>>>>>>,
 BIH |-> <<"BIC", <<<<1, 2>>>>>>,
 BIL |-> <<"BIC", <<<<1, 4>>>>>>,
 BIM |-> <<"BIC", <<<<1, 4>>>>>>,
 BINE |-> <<"BIC", <<<<1, 7>>>>>>,
 BINH |-> <<"BIC", <<<<1, 13>>>>>>,
 BINL |-> <<"BIC", <<<<1, 11>>>>>>,
 BINM |-> <<"BIC", <<<<1, 11>>>>>>,
 BINO |-> <<"BIC", <<<<1, 14>>>>>>,
 BINP |-> <<"BIC", <<<<1, 13>>>>>>,
 BINZ |-> <<"BIC", <<<<1, 7>>>>>>,
 BIO |-> <<"BIC", <<<<1, 1>>>>>>,
 BIP |-> <<"BIC", <<<<1, 2>>>>>>,
 BIZ |-> <<"BIC", <<<<1, 8>>>>>>,
 BL |-> <<"BC", <<<<1, 4>>>>>>,
 BLR |-> <<"BCR", <<<<1, 4>>>>>>,
 BM |-> <<"BC", <<<<1, 4>>>>>>,
 BMR |-> <<"BCR", <<<<1, 4>>>>>>,
 BNE |-> <<"BC", <<<<1, 7>>>>>>,
 BNER |-> <<"BCR", <<<<1, 7>>>>>>,
 BNH |-> <<"BC", <<<<1, 13>>>>>>,
 BNHR |-> <<"BCR", <<<<1, 13>>>>>>,
 BNL |-> <<"BC", <<<<1, 11>>>>>>,
 BNLR |-> <<"BCR", <<<<1, 11>>>>>>,
 BNM |-> <<"BC", <<<<1, 11>>>>>>,
 BNMR |-> <<"BCR", <<<<1, 11>>>>>>,
 BNO |-> <<"BC", <<<<1, 14>>>>>>,
 BNOR |-> <<"BCR", <<<<1, 14>>>>>>,
 BNP |-> <<"BC", <<<<1, 13>>>>>>,
 BNPR |-> <<"BCR", <<<<1, 13>>>>>>,
 BNZ |-> <<"BC", <<<<1, 7>>>>>>,
 BNZR |-> <<"BCR", <<<<1, 7>>>>>>,
 BO |-> <<"BC", <<<<1, 1>>>>>>,
 BOR |-> <<"BCR", <<<<1, 1>>>>>>,
 BP |-> <<"BC", <<<<1, 2>>>>>>,
 BPR |-> <<"BCR", <<<<1, 2>>>>>>,
 BR |-> <<"BCR", <<<<1, 15>>>>>>,
 BRE |-> <<"BRC", <<<<1, 8>>>>>>,
 BREL |-> <<"BRCL", <<<<1, 8>>>>>>,
 BRH |-> <<"BRC", <<<<1, 2>>>>>>,
 BRHL |-> <<"BRCL", <<<<1, 2>>>>>>,
 BRL |-> <<"BRC", <<<<1, 4>>>>>>,
 BRLL |-> <<"BRCL", <<<<1, 4>>>>>>,
 BRM |-> <<"BRC", <<<<1, 4>>>>>>,
 BRML |-> <<"BRCL", <<<<1, 4>>>>>>,
 BRNE |-> <<"BRC", <<<<1, 7>>>>>>,
 BRNEL |-> <<"BRCL", <<<<1, 7>>>>>>,
 BRNH |-> <<"BRC", <<<<1, 13>>>>>>,
 BRNHL |-> <<"BRCL", <<<<1, 13>>>>>>,
 BRNL |-> <<"BRC", <<<<1, 11>>>>>>,
 BRNLL |-> <<"BRCL", <<<<1, 11>>>>>>,
 BRNM |-> <<"BRC", <<<<1, 11>>>>>>,
 BRNML |-> <<"BRCL", <<<<1, 11>>>>>>,
 BRNO |-> <<"BRC", <<<<1, 14>>>>>>,
 BRNOL |-> <<"BRCL", <<<<1, 14>>>>>>,
 BRNP |-> <<"BRC", <<<<1, 13>>>>>>,
 BRNPL |-> <<"BRCL", <<<<1, 13>>>>>>,
 BRNZ |-> <<"BRC", <<<<1, 7>>>>>>,
 BRNZL |-> <<"BRCL", <<<<1, 7>>>>>>,
 BRO |-> <<"BRC", <<<<1, 1>>>>>>,
 BROL |-> <<"BRCL", <<<<1, 1>>>>>>,
 BRP |-> <<"BRC", <<<<1, 2>>>>>>,
 BRPL |-> <<"BRCL", <<<<1, 2>>>>>>,
 BRU |-> <<"BRC", <<<<1, 15>>>>>>,
 BRUL |-> <<"BRCL", <<<<1, 15>>>>>>,
 BRZ |-> <<"BRC", <<<<1, 8>>>>>>,
 BRZL |-> <<"BRCL", <<<<1, 8>>>>>>,
 BZ |-> <<"BC", <<<<1, 8>>>>>>,
 BZR |-> <<"BCR", <<<<1, 8>>>>>>,
 CGIBE |-> <<"CGIB", <<<<3, 8>>>>>>,
 CGIBH |-> <<"CGIB", <<<<3, 2>>>>>>,
 CGIBL |-> <<"CGIB", <<<<3, 4>>>>>>,
 CGIBNE |-> <<"CGIB", <<<<3, 6>>>>>>,
 CGIBNH |-> <<"CGIB", <<<<3, 12>>>>>>,
 CGIBNL |-> <<"CGIB", <<<<3, 10>>>>>>,
 CGIJE |-> <<"CGIJ", <<<<3, 8>>>>>>,
 CGIJH |-> <<"CGIJ", <<<<3, 2>>>>>>,
 CGIJL |-> <<"CGIJ", <<<<3, 4>>>>>>,
 CGIJNE |-> <<"CGIJ", <<<<3, 6>>>>>>,
 CGIJNH |-> <<"CGIJ", <<<<3, 12>>>>>>,
 CGIJNL |-> <<"CGIJ", <<<<3, 10>>>>>>,
 CGITE |-> <<"CGIT", <<<<3, 8>>>>>>,
 CGITH |-> <<"CGIT", <<<<3, 2>>>>>>,
 CGITL |-> <<"CGIT", <<<<3, 4>>>>>>,
 CGITNE |-> <<"CGIT", <<<<3, 6>>>>>>,
 CGITNH |-> <<"CGIT", <<<<3, 12>>>>>>,
 CGITNL |-> <<"CGIT", <<<<3, 10>>>>>>,
 CGRBE |-> <<"CGRB", <<<<3, 8>>>>>>,
 CGRBH |-> <<"CGRB", <<<<3, 2>>>>>>,
 CGRBL |-> <<"CGRB", <<<<3, 4>>>>>>,
 CGRBNE |-> <<"CGRB", <<<<3, 6>>>>>>,
 CGRBNH |-> <<"CGRB", <<<<3, 12>>>>>>,
 CGRBNL |-> <<"CGRB", <<<<3, 10>>>>>>,
 CGRJE |-> <<"CGRJ", <<<<3, 8>>>>>>,
 CGRJH |-> <<"CGRJ", <<<<3, 2>>>>>>,
 CGRJL |-> <<"CGRJ", <<<<3, 4>>>>>>,
 CGRJNE |-> <<"CGRJ", <<<<3, 6>>>>>>,
 CGRJNH |-> <<"CGRJ", <<<<3, 12>>>>>>,
 CGRJNL |-> <<"CGRJ", <<<<3, 10>>>>>>,
 CGRTE |-> <<"CGRT", <<<<3, 8>>>>>>,
 CGRTH |-> <<"CGRT", <<<<3, 2>>>>>>,
 CGRTL |-> <<"CGRT", <<<<3, 4>>>>>>,
 CGRTNE |-> <<"CGRT", <<<<3, 6>>>>>>,
 CGRTNH |-> <<"CGRT", <<<<3, 12>>>>>>,
 CGRTNL |-> <<"CGRT", <<<<3, 10>>>>>>,
 CIBE |-> <<"CIB", <<<<3, 8>>>>>>,
 CIBH |-> <<"CIB", <<<<3, 2>>>>>>,
 CIBL |-> <<"CIB", <<<<3, 4>>>>>>,
 CIBNE |-> <<"CIB", <<<<3, 6>>>>>>,
 CIBNH |-> <<"CIB", <<<<3, 12>>>>>>,
 CIBNL |-> <<"CIB", <<<<3, 10>>>>>>,
 CIJE |-> <<"CIJ", <<<<3, 8>>>>>>,
 CIJH |-> <<"CIJ", <<<<3, 2>>>>>>,
 CIJL |-> <<"CIJ", <<<<3, 4>>>>>>,
 CIJNE |-> <<"CIJ", <<<<3, 6>>>>>>,
 CIJNH |-> <<"CIJ", <<<<3, 12>>>>>>,
 CIJNL |-> <<"CIJ", <<<<3, 10>>>>>>,
 CITE |-> <<"CIT", <<<<3, 8>>>>>>,
 CITH |-> <<"CIT", <<<<3, 2>>>>>>,
 CITL |-> <<"CIT", <<<<3, 4>>>>>>,
 CITNE |-> <<"CIT", <<<<3, 6>>>>>>,
 CITNH |-> <<"CIT", <<<<3, 12>>>>>>,
 CITNL |-> <<"CIT", <<<<3, 10>>>>>>,
 CLFITE |-> <<"CLFIT", <<<<3, 8>>>>>>,
 CLFITH |-> <<"CLFIT", <<<<3, 2>>>>>>,
 CLFITL |-> <<"CLFIT", <<<<3, 4>>>>>>,
 CLFITNE |-> <<"CLFIT", <<<<3, 6>>>>>>,
 CLFITNH |-> <<"CLFIT", <<<<3, 12>>>>>>,
 CLFITNL |-> <<"CLFIT", <<<<3, 10>>>>>>,
 CLGIBE |-> <<"CLGIB", <<<<3, 8>>>>>>,
 CLGIBH |-> <<"CLGIB", <<<<3, 2>>>>>>,
 CLGIBL |-> <<"CLGIB", <<<<3, 4>>>>>>,
 CLGIBNE |-> <<"CLGIB", <<<<3, 6>>>>>>,
 CLGIBNH |-> <<"CLGIB", <<<<3, 12>>>>>>,
 CLGIBNL |-> <<"CLGIB", <<<<3, 10>>>>>>,
 CLGIJE |-> <<"CLGIJ", <<<<3, 8>>>>>>,
 CLGIJH |-> <<"CLGIJ", <<<<3, 2>>>>>>,
 CLGIJL |-> <<"CLGIJ", <<<<3, 4>>>>>>,
 CLGIJNE |-> <<"CLGIJ", <<<<3, 6>>>>>>,
 CLGIJNH |-> <<"CLGIJ", <<<<3, 12>>>>>>,
 CLGIJNL |-> <<"CLGIJ", <<<<3, 10>>>>>>,
 CLGITE |-> <<"CLGIT", <<<<3, 8>>>>>>,
 CLGITH |-> <<"CLGIT", <<<<3, 2>>>>>>,
 CLGITL |-> <<"CLGIT", <<<<3, 4>>>>>>,
 CLGITNE |-> <<"CLGIT", <<<<3, 6>>>>>>,
 CLGITNH |-> <<"CLGIT", <<<<3, 12>>>>>>,
 CLGITNL |-> <<"CLGIT", <<<<3, 10>>>>>>,
 CLGRBE |-> <<"CLGRB", <<<<3, 8>>>>>>,
 CLGRBH |-> <<"CLGRB", <<<<3, 2>>>>>>,
 CLGRBL |-> <<"CLGRB", <<<<3, 4>>>>>>,
 CLGRBNE |-> <<"CLGRB", <<<<3, 6>>>>>>,
 CLGRBNH |-> <<"CLGRB", <<<<3, 12>>>>>>,
 CLGRBNL |-> <<"CLGRB", <<<<3, 10>>>>>>,
 CLGRJE |-> <<"CLGRJ", <<<<3, 8>>>>>>,
 CLGRJH |-> <<"CLGRJ", <<<<3, 2>>>>>>,
 CLGRJL |-> <<"CLGRJ", <<<<3, 4>>>>>>,
 CLGRJNE |-> <<"CLGRJ", <<<<3, 6>>>>>>,
 CLGRJNH |-> <<"CLGRJ", <<<<3, 12>>>>>>,
 CLGRJNL |-> <<"CLGRJ", <<<<3, 10>>>>>>,
 CLGRTE |-> <<"CLGRT", <<<<3, 8>>>>>>,
 CLGRTH |-> <<"CLGRT", <<<<3, 2>>>>>>,
 CLGRTL |-> <<"CLGRT", <<<<3, 4>>>>>>,
 CLGRTNE |-> <<"CLGRT", <<<<3, 6>>>>>>,
 CLGRTNH |-> <<"CLGRT", <<<<3, 12>>>>>>,
 CLGRTNL |-> <<"CLGRT", <<<<3, 10>>>>>>,
 CLGTE |-> <<"CLGT", <<<<2, 8>>>>>>,
 CLGTH |-> <<"CLGT", <<<<2, 2>>>>>>,
 CLGTL |-> <<"CLGT", <<<<2, 4>>>>>>,
 CLGTNE |-> <<"CLGT", <<<<2, 6>>>>>>,
 CLGTNH |-> <<"CLGT", <<<<2, 12>>>>>>,
 CLGTNL |-> <<"CLGT", <<<<2, 10>>>>>>,
 CLIBE |-> <<"CLIB", <<<<3, 8>>>>>>,
 CLIBH |-> <<"CLIB", <<<<3, 2>>>>>>,
 CLIBL |-> <<"CLIB", <<<<3, 4>>>>>>,
 CLIBNE |-> <<"CLIB", <<<<3, 6>>>>>>,
 CLIBNH |-> <<"CLIB", <<<<3, 12>>>>>>,
 CLIBNL |-> <<"CLIB", <<<<3, 10>>>>>>,
 CLIJE |-> <<"CLIJ", <<<<3, 8>>>>>>,
 CLIJH |-> <<"CLIJ", <<<<3, 2>>>>>>,
 CLIJL |-> <<"CLIJ", <<<<3, 4>>>>>>,
 CLIJNE |-> <<"CLIJ", <<<<3, 6>>>>>>,
 CLIJNH |-> <<"CLIJ", <<<<3, 12>>>>>>,
 CLIJNL |-> <<"CLIJ", <<<<3, 10>>>>>>,
 CLRBE |-> <<"CLRB", <<<<3, 8>>>>>>,
 CLRBH |-> <<"CLRB", <<<<3, 2>>>>>>,
 CLRBL |-> <<"CLRB", <<<<3, 4>>>>>>,
 CLRBNE |-> <<"CLRB", <<<<3, 6>>>>>>,
 CLRBNH |-> <<"CLRB", <<<<3, 12>>>>>>,
 CLRBNL |-> <<"CLRB", <<<<3, 10>>>>>>,
 CLRJE |-> <<"CLRJ", <<<<3, 8>>>>>>,
 CLRJH |-> <<"CLRJ", <<<<3, 2>>>>>>,
 CLRJL |-> <<"CLRJ", <<<<3, 4>>>>>>,
 CLRJNE |-> <<"CLRJ", <<<<3, 6>>>>>>,
 CLRJNH |-> <<"CLRJ", <<<<3, 12>>>>>>,
 CLRJNL |-> <<"CLRJ", <<<<3, 10>>>>>>,
 CLRTE |-> <<"CLRT", <<<<3, 8>>>>>>,
 CLRTH |-> <<"CLRT", <<<<3, 2>>>>>>,
 CLRTL |-> <<"CLRT", <<<<3, 4>>>>>>,
 CLRTNE |-> <<"CLRT", <<<<3, 6>>>>>>,
 CLRTNH |-> <<"CLRT", <<<<3, 12>>>>>>,
 CLRTNL |-> <<"CLRT", <<<<3, 10>>>>>>,
 CLTE |-> <<"CLT", <<<<2, 8>>>>>>,
 CLTH |-> <<"CLT", <<<<2, 2>>>>>>,
 CLTL |-> <<"CLT", <<<<2, 4>>>>>>,
 CLTNE |-> <<"CLT", <<<<2, 6>>>>>>,
 CLTNH |-> <<"CLT", <<<<2, 12>>>>>>,
 CLTNL |-> <<"CLT", <<<<2, 10>>>>>>,
 CRBE |-> <<"CRB", <<<<3, 8>>>>>>,
 CRBH |-> <<"CRB", <<<<3, 2>>>>>>,
 CRBL |-> <<"CRB", <<<<3, 4>>>>>>,
 CRBNE |-> <<"CRB", <<<<3, 6>>>>>>,
 CRBNH |-> <<"CRB", <<<<3, 12>>>>>>,
 CRBNL |-> <<"CRB", <<<<3, 10>>>>>>,
 CRJE |-> <<"CRJ", <<<<3, 8>>>>>>,
 CRJH |-> <<"CRJ", <<<<3, 2>>>>>>,
 CRJL |-> <<"CRJ", <<<<3, 4>>>>>>,
 CRJNE |-> <<"CRJ", <<<<3, 6>>>>>>,
 CRJNH |-> <<"CRJ", <<<<3, 12>>>>>>,
 CRJNL |-> <<"CRJ", <<<<3, 10>>>>>>,
 CRTE |-> <<"CRT", <<<<3, 8>>>>>>,
 CRTH |-> <<"CRT", <<<<3, 2>>>>>>,
 CRTL |-> <<"CRT", <<<<3, 4>>>>>>,
 CRTNE |-> <<"CRT", <<<<3, 6>>>>>>,
 CRTNH |-> <<"CRT", <<<<3, 12>>>>>>,
 CRTNL |-> <<"CRT", <<<<3, 10>>>>>>,
 J |-> <<"BRC", <<<<1, 15>>>>>>,
 JAS |-> <<"BRAS", <<>>>>,
 JASL |-> <<"BRASL", <<>>>>,
 JC |-> <<"BRC", <<>>>>,
 JCT |-> <<"BRCT", <<>>>>,
 JCTG |-> <<"BRCTG", <<>>>>,
 JE |-> <<"BRC", <<<<1, 8>>>>>>,
 JH |-> <<"BRC", <<<<1, 2>>>>>>,
 JL |-> <<"BRC", <<<<1, 4>>>>>>,
 JLE |-> <<"BRCL", <<<<1, 8>>>>>>,
 JLH |-> <<"BRCL", <<<<1, 2>>>>>>,
 JLL |-> <<"BRCL", <<<<1, 4>>>>>>,
 JLM |-> <<"BRCL", <<<<1, 4>>>>>>,
 JLNE |-> <<"BRCL", <<<<1, 7>>>>>>,
 JLNH |-> <<"BRCL", <<<<1, 13>>>>>>,
 JLNL |-> <<"BRCL", <<<<1, 11>>>>>>,
 JLNM |-> <<"BRCL", <<<<1, 11>>>>>>,
 JLNO |-> <<"BRCL", <<<<1, 14>>>>>>,
 JLNOP |-> <<"BRCL", <<<<1, 0>>>>>>,
 JLNP |-> <<"BRCL", <<<<1, 13>>>>>>,
 JLNZ |-> <<"BRCL", <<<<1, 7>>>>>>,
 JLO |-> <<"BRCL", <<<<1, 1>>>>>>,
 JLP |-> <<"BRCL", <<<<1, 2>>>>>>,
 JLU |-> <<"BRCL", <<<<1, 15>>>>>>,
 JLZ |-> <<"BRCL", <<<<1, 8>>>>>>,
 JM |-> <<"BRC", <<<<1, 4>>>>>>,
 JNE |-> <<"BRC", <<<<1, 7>>>>>>,
 JNH |-> <<"BRC", <<<<1, 13>>>>>>,
 JNL |-> <<"BRC", <<<<1, 11>>>>>>,
 JNM |-> <<"BRC", <<<<1, 11>>>>>>,
 JNO |-> <<"BRC", <<<<1, 14>>>>>>,
 JNOP |-> <<"BRC", <<<<1, 0>>>>>>,
 JNP |-> <<"BRC", <<<<1, 13>>>>>>,
 JNZ |-> <<"BRC", <<<<1, 7>>>>>>,
 JO |-> <<"BRC", <<<<1, 1>>>>>>,
 JP |-> <<"BRC", <<<<1, 2>>>>>>,
 JXH |-> <<"BRXH", <<>>>>,
 JXHG |-> <<"BRXHG", <<>>>>,
 JXLE |-> <<"BRXLE", <<>>>>,
 JXLEG |-> <<"BRXLG", <<>>>>,
 JZ |-> <<"BRC", <<<<1, 8>>>>>>,
 LDRV |-> <<"VLLEBRZ", <<<<3, 3>>>>>>,
 LERV |-> <<"VLLEBRZ", <<<<3, 6>>>>>>,
 LHHR |-> <<"RISBHGZ", <<<<3, 0>>, <<4, 31>>>>>>,
 LHLR |-> <<"RISBHGZ", <<<<3, 0>>, <<4, 31>>, <<5, 32>>>>>>,
 LLCHHR |-> <<"RISBHGZ", <<<<3, 24>>, <<4, 31>>>>>>,
 LLCHLR |-> <<"RISBHGZ", <<<<3, 24>>, <<4, 31>>, <<5, 32>>>>>>,
 LLCLHR |-> <<"RISBLGZ", <<<<3, 24>>, <<4, 31>>, <<5, 32>>>>>>,
 LLHFR |-> <<"RISBLGZ", <<<<3, 0>>, <<4, 31>>, <<5, 32>>>>>>,
 LLHHHR |-> <<"RISBHGZ", <<<<3, 16>>, <<4, 31>>>>>>,
 LLHHLR |-> <<"RISBHGZ", <<<<3, 16>>, <<4, 31>>, <<5, 32>>>>>>,
 LLHLHR |-> <<"RISBLGZ", <<<<3, 16>>, <<4, 31>>, <<5, 32>>>>>>,
 LOCE |-> <<"LOC", <<<<3, 8>>>>>>,
 LOCFHE |-> <<"LOCFH", <<<<3, 8>>>>>>,
 LOCFHH |-> <<"LOCFH", <<<<3, 2>>>>>>,
 LOCFHL |-> <<"LOCFH", <<<<3, 4>>>>>>,
 LOCFHNE |-> <<"LOCFH", <<<<3, 7>>>>>>,
 LOCFHNH |-> <<"LOCFH", <<<<3, 13>>>>>>,
 LOCFHNL |-> <<"LOCFH", <<<<3, 11>>>>>>,
 LOCFHNO |-> <<"LOCFH", <<<<3, 14>>>>>>,
 LOCFHO |-> <<"LOCFH", <<<<3, 1>>>>>>,
 LOCFHRE |-> <<"LOCFHR", <<<<3, 8>>>>>>,
 LOCFHRH |-> <<"LOCFHR", <<<<3, 2>>>>>>,
 LOCFHRL |-> <<"LOCFHR", <<<<3, 4>>>>>>,
 LOCFHRNE |-> <<"LOCFHR", <<<<3, 7>>>>>>,
 LOCFHRNH |-> <<"LOCFHR", <<<<3, 13>>>>>>,
 LOCFHRNL |-> <<"LOCFHR", <<<<3, 11>>>>>>,
 LOCFHRNO |-> <<"LOCFHR", <<<<3, 14>>>>>>,
 LOCFHRO |-> <<"LOCFHR", <<<<3, 1>>>>>>,
 LOCGE |-> <<"LOCG", <<<<3, 8>>>>>>,
 LOCGH |-> <<"LOCG", <<<<3, 2>>>>>>,
 LOCGHIE |-> <<"LOCGHI", <<<<3, 8>>>>>>,
 LOCGHIH |-> <<"LOCGHI", <<<<3, 2>>>>>>,
 LOCGHIL |-> <<"LOCGHI", <<<<3, 4>>>>>>,
 LOCGHINE |-> <<"LOCGHI", <<<<3, 7>>>>>>,
 LOCGHINH |-> <<"LOCGHI", <<<<3, 13>>>>>>,
 LOCGHINL |-> <<"LOCGHI", <<<<3, 11>>>>>>,
 LOCGHINO |-> <<"LOCGHI", <<<<3, 14>>>>>>,
 LOCGHIO |-> <<"LOCGHI", <<<<3, 1>>>>>>,
 LOCGL |-> <<"LOCG", <<<<3, 4>>>>>>,
 LOCGNE |-> <<"LOCG", <<<<3, 6>>>>>>,
 LOCGNH |-> <<"LOCG", <<<<3, 12>>>>>>,
 LOCGNL |-> <<"LOCG", <<<<3, 10>>>>>>,
 LOCGNO |-> <<"LOCG", <<<<3, 14>>>>>>,
 LOCGO |-> <<"LOCG", <<<<3, 1>>>>>>,
 LOCGRE |-> <<"LOCGR", <<<<3, 8>>>>>>,
 LOCGRH |-> <<"LOCGR", <<<<3, 2>>>>>>,
 LOCGRL |-> <<"LOCGR", <<<<3, 4>>>>>>,
 LOCGRNE |-> <<"LOCGR", <<<<3, 6>>>>>>,
 LOCGRNH |-> <<"LOCGR", <<<<3, 12>>>>>>,
 LOCGRNL |-> <<"LOCGR", <<<<3, 10>>>>>>,
 LOCGRNO |-> <<"LOCGR", <<<<3, 14>>>>>>,
 LOCGRO |-> <<"LOCGR", <<<<3, 1>>>>>>,
 LOCH |-> <<"LOC", <<<<3, 2>>>>>>,
 LOCHHIE |-> <<"LOCHHI", <<<<3, 8>>>>>>,
 LOCHHIH |-> <<"LOCHHI", <<<<3, 2>>>>>>,
 LOCHHIL |-> <<"LOCHHI", <<<<3, 4>>>>>>,
 LOCHHINE |-> <<"LOCHHI", <<<<3, 7>>>>>>,
 LOCHHINH |-> <<"LOCHHI", <<<<3, 13>>>>>>,
 LOCHHINL |-> <<"LOCHHI", <<<<3, 11>>>>>>,
 LOCHHINO |-> <<"LOCHHI", <<<<3, 14>>>>>>,
 LOCHHIO |-> <<"LOCHHI", <<<<3, 1>>>>>>,
 LOCHIE |-> <<"LOCHI", <<<<3, 8>>>>>>,
 LOCHIH |-> <<"LOCHI", <<<<3, 2>>>>>>,
 LOCHIL |-> <<"LOCHI", <<<<3, 4>>>>>>,
 LOCHINE |-> <<"LOCHI", <<<<3, 7>>>>>>,
 LOCHINH |-> <<"LOCHI", <<<<3, 13>>>>>>,
 LOCHINL |-> <<"LOCHI", <<<<3, 11>>>>>>,
 LOCHINO |-> <<"LOCHI", <<<<3, 14>>>>>>,
 LOCHIO |-> <<"LOCHI", <<<<3, 1>>>>>>,
 LOCL |-> <<"LOC", <<<<3, 4>>>>>>,
 LOCNE |-> <<"LOC", <<<<3, 6>>>>>>,
 LOCNH |-> <<"LOC", <<<<3, 12>>>>>>,
 LOCNL |-> <<"LOC", <<<<3, 10>>>>>>,
 LOCNO |-> <<"LOC", <<<<3, 14>>>>>>,
 LOCO |-> <<"LOC", <<<<3, 1>>>>>>,
 LOCRE |-> <<"LOCR", <<<<3, 8>>>>>>,
 LOCRH |-> <<"LOCR", <<<<3, 2>>>>>>,
 LOCRL |-> <<"LOCR", <<<<3, 4>>>>>>,
 LOCRNE |-> <<"LOCR", <<<<3, 6>>>>>>,
 LOCRNH |-> <<"LOCR", <<<<3, 12>>>>>>,
 LOCRNL |-> <<"LOCR", <<<<3, 10>>>>>>,
 LOCRNO |-> <<"LOCR", <<<<3, 14>>>>>>,
 LOCRO |-> <<"LOCR", <<<<3, 1>>>>>>,
 NHHR |-> <<"RNSBG", <<<<3, 0>>, <<4, 31>>>>>>,
 NHLR |-> <<"RNSBG", <<<<3, 0>>, <<4, 31>>, <<5, 32>>>>>>,
 NLHR |-> <<"RNSBG", <<<<3, 32>>, <<4, 63>>, <<5, 32>>>>>>,
 NOP |-> <<"BC", <<<<1, 0>>>>>>,
 NOPR |-> <<"BCR", <<<<1, 0>>>>>>,
 NOTGR |-> <<"NOGRK", <<<<3, 0>>>>>>,
 NOTR |-> <<"NORK", <<<<3, 0>>>>>>,
 OHHR |-> <<"ROSBG", <<<<3, 0>>, <<4, 31>>>>>>,
 OHLR |-> <<"ROSBG", <<<<3, 0>>, <<4, 31>>, <<5, 32>>>>>>,
 OLHR |-> <<"ROSBG", <<<<3, 32>>, <<4, 63>>, <<5, 32>>>>>>,
 SELFHRE |-> <<"SELFHR", <<<<4, 8>>>>>>,
 SELFHRH |-> <<"SELFHR", <<<<4, 2>>>>>>,
 SELFHRL |-> <<"SELFHR", <<<<4, 4>>>>>>,
 SELFHRNE |-> <<"SELFHR", <<<<4, 7>>>>>>,
 SELFHRNH |-> <<"SELFHR", <<<<4, 13>>>>>>,
 SELFHRNL |-> <<"SELFHR", <<<<4, 11>>>>>>,
 SELFHRNO |-> <<"SELFHR", <<<<4, 14>>>>>>,
 SELFHRO |-> <<"SELFHR", <<<<4, 1>>>>>>,
 SELGRE |-> <<"SELGR", <<<<4, 8>>>>>>,
 SELGRH |-> <<"SELGR", <<<<4, 2>>>>>>,
 SELGRL |-> <<"SELGR", <<<<4, 4>>>>>>,
 SELGRNE |-> <<"SELGR", <<<<4, 7>>>>>>,
 SELGRNH |-> <<"SELGR", <<<<4, 13>>>>>>,
 SELGRNL |-> <<"SELGR", <<<<4, 11>>>>>>,
 SELGRNO |-> <<"SELGR", <<<<4, 14>>>>>>,
 SELGRO |-> <<"SELGR", <<<<4, 1>>>>>>,
 SELRE |-> <<"SELR", <<<<4, 8>>>>>>,
 SELRH |-> <<"SELR", <<<<4, 2>>>>>>,
 SELRL |-> <<"SELR", <<<<4, 4>>>>>>,
 SELRNE |-> <<"SELR", <<<<4, 7>>>>>>,
 SELRNH |-> <<"SELR", <<<<4, 13>>>>>>,
 SELRNL |-> <<"SELR", <<<<4, 11>>>>>>,
 SELRNO |-> <<"SELR", <<<<4, 14>>>>>>,
 SELRO |-> <<"SELR", <<<<4, 1>>>>>>,
 STDRV |-> <<"VSTEBRG", <<<<3, 0>>>>>>,
 STERV |-> <<"VSTEBRF", <<<<3, 0>>>>>>,
 STOCE |-> <<"STOC", <<<<3, 8>>>>>>,
 STOCFHE |-> <<"STOCFH", <<<<3, 8>>>>>>,
 STOCFHH |-> <<"STOCFH", <<<<3, 2>>>>>>,
 STOCFHL |-> <<"STOCFH", <<<<3, 4>>>>>>,
 STOCFHNE |-> <<"STOCFH", <<<<3, 7>>>>>>,
 STOCFHNH |-> <<"STOCFH", <<<<3, 13>>>>>>,
 STOCFHNL |-> <<"STOCFH", <<<<3, 11>>>>>>,
 STOCFHNO |-> <<"STOCFH", <<<<3, 14>>>>>>,
 STOCFHO |-> <<"STOCFH", <<<<3, 1>>>>>>,
 STOCGE |-> <<"STOCG", <<<<3, 8>>>>>>,
 STOCGH |-> <<"STOCG", <<<<3, 2>>>>>>,
 STOCGL |-> <<"STOCG", <<<<3, 4>>>>>>,
 STOCGNE |-> <<"STOCG", <<<<3, 6>>>>>>,
 STOCGNH |-> <<"STOCG", <<<<3, 12>>>>>>,
 STOCGNL |-> <<"STOCG", <<<<3, 10>>>>>>,
 STOCGNO |-> <<"STOCG", <<<<3, 14>>>>>>,
 STOCGO |-> <<"STOCG", <<<<3, 1>>>>>>,
 STOCH |-> <<"STOC", <<<<3, 2>>>>>>,
 STOCL |-> <<"STOC", <<<<3, 4>>>>>>,
 STOCNE |-> <<"STOC", <<<<3, 6>>>>>>,
 STOCNH |-> <<"STOC", <<<<3, 12>>>>>>,
 STOCNL |-> <<"STOC", <<<<3, 10>>>>>>,
 STOCNO |-> <<"STOC", <<<<3, 14>>>>>>,
 STOCO |-> <<"STOC", <<<<3, 1>>>>>>,
 VAB |-> <<"VA", <<<<4, 0>>>>>>,
 VACCB |-> <<"VACC", <<<<4, 0>>>>>>,
 VACCCQ |-> <<"VACCC", <<<<5, 4>>>>>>,
 VACCF |-> <<"VACC", <<<<4, 2>>>>>>,
 VACCG |-> <<"VACC", <<<<4, 3>>>>>>,
 VACCH |-> <<"VACC", <<<<4, 1>>>>>>,
 VACCQ |-> <<"VACC", <<<<4, 4>>>>>>,
 VACQ |-> <<"VAC", <<<<5, 4>>>>>>,
 VAF |-> <<"VA", <<<<4, 2>>>>>>,
 VAG |-> <<"VA", <<<<4, 3>>>>>>,
 VAH |-> <<"VA", <<<<4, 1>>>>>>,
 VAQ |-> <<"VA", <<<<4, 4>>>>>>,
 VAVGB |-> <<"VAVG", <<<<4, 0>>>>>>,
 VAVGF |-> <<"VAVG", <<<<4, 2>>>>>>,
 VAVGG |-> <<"VAVG", <<<<4, 3>>>>>>,
 VAVGH |-> <<"VAVG", <<<<4, 1>>>>>>,
 VAVGLB |-> <<"VAVGL", <<<<4, 0>>>>>>,
 VAVGLF |-> <<"VAVGL", <<<<4, 2>>>>>>,
 VAVGLG |-> <<"VAVGL", <<<<4, 3>>>>>>,
 VAVGLH |-> <<"VAVGL", <<<<4, 1>>>>>>,
 VCDG |-> <<"VCFPS", <<>>>>,
 VCDGB |-> <<"VCFPS", <<<<3, 3>>>>>>,
 VCDLG |-> <<"VCFPL", <<>>>>,
 VCDLGB |-> <<"VCFPL", <<<<3, 3>>>>>>,
 VCEFB |-> <<"VCFPS", <<<<3, 0>>>>>>,
 VCELFB |-> <<"VCFPL", <<<<3, 0>>>>>>,
 VCEQB |-> <<"VCEQ", <<<<4, 0>>, <<5, 0>>>>>>,
 VCEQBS |-> <<"VCEQ", <<<<4, 0>>, <<5, 1>>>>>>,
 VCEQF |-> <<"VCEQ", <<<<4, 2>>, <<5, 0>>>>>>,
 VCEQFS |-> <<"VCEQ", <<<<4, 2>>, <<5, 1>>>>>>,
 VCEQG |-> <<"VCEQ", <<<<4, 3>>, <<5, 0>>>>>>,
 VCEQGS |-> <<"VCEQ", <<<<4, 3>>, <<5, 1>>>>>>,
 VCEQH |-> <<"VCEQ", <<<<4, 1>>, <<5, 0>>>>>>,
 VCEQHS |-> <<"VCEQ", <<<<4, 1>>, <<5, 1>>>>>>,
 VCFEB |-> <<"VCSFP", <<<<3, 2>>>>>>,
 VCGD |-> <<"VCSFP", <<>>>>,
 VCGDB |-> <<"VCSFP", <<<<3, 3>>>>>>,
 VCHB |-> <<"VCH", <<<<4, 0>>, <<5, 0>>>>>>,
 VCHBS |-> <<"VCH", <<<<4, 0>>, <<5, 1>>>>>>,
 VCHF |-> <<"VCH", <<<<4, 2>>, <<5, 0>>>>>>,
 VCHFS |-> <<"VCH", <<<<4, 2>>, <<5, 1>>>>>>,
 VCHG |-> <<"VCH", <<<<4, 3>>, <<5, 0>>>>>>,
 VCHGS |-> <<"VCH", <<<<4, 3>>, <<5, 1>>>>>>,
 VCHH |-> <<"VCH", <<<<4, 1>>, <<5, 0>>>>>>,
 VCHHS |-> <<"VCH", <<<<4, 1>>, <<5, 1>>>>>>,
 VCHLB |-> <<"VCHL", <<<<4, 0>>, <<5, 0>>>>>>,
 VCHLBS |-> <<"VCHL", <<<<4, 0>>, <<5, 1>>>>>>,
 VCHLF |-> <<"VCHL", <<<<4, 2>>, <<5, 0>>>>>>,
 VCHLFS |-> <<"VCHL", <<<<4, 2>>, <<5, 1>>>>>>,
 VCHLG |-> <<"VCHL", <<<<4, 3>>, <<5, 0>>>>>>,
 VCHLGS |-> <<"VCHL", <<<<4, 3>>, <<5, 1>>>>>>,
 VCHLH |-> <<"VCHL", <<<<4, 1>>, <<5, 0>>>>>>,
 VCHLHS |-> <<"VCHL", <<<<4, 1>>, <<5, 1>>>>>>,
 VCLFEB |-> <<"VCLFP", <<<<3, 0>>>>>>,
 VCLGDB |-> <<"VCLGD", <<<<3, 3>>>>>>,
 VCLZB |-> <<"VCLZ", <<<<3, 0>>>>>>,
 VCLZF |-> <<"VCLZ", <<<<3, 2>>>>>>,
 VCLZG |-> <<"VCLZ", <<<<3, 3>>>>>>,
 VCLZH |-> <<"VCLZ", <<<<3, 1>>>>>>,
 VECB |-> <<"VEC", <<<<3, 0>>>>>>,
 VECF |-> <<"VEC", <<<<3, 2>>>>>>,
 VECG |-> <<"VEC", <<<<3, 3>>>>>>,
 VECH |-> <<"VEC", <<<<3, 1>>>>>>,
 VECLB |-> <<"VECL", <<<<3, 0>>>>>>,
 VECLF |-> <<"VECL", <<<<3, 2>>>>>>,
 VECLG |-> <<"VECL", <<<<3, 3>>>>>>,
 VECLH |-> <<"VECL", <<<<3, 1>>>>>>,
 VERIMB |-> <<"VERIM", <<<<5, 0>>>>>>,
 VERIMF |-> <<"VERIM", <<<<5, 2>>>>>>,
 VERIMG |-> <<"VERIM", <<<<5, 3>>>>>>,
 VERIMH |-> <<"VERIM", <<<<5, 1>>>>>>,
 VERLLB |-> <<"VERLL", <<<<4, 0>>>>>>,
 VERLLF |-> <<"VERLL", <<<<4, 2>>>>>>,
 VERLLG |-> <<"VERLL", <<<<4, 3>>>>>>,
 VERLLH |-> <<"VERLL", <<<<4, 1>>>>>>,
 VERLLVB |-> <<"VERLLV", <<<<4, 0>>>>>>,
 VERLLVF |-> <<"VERLLV", <<<<4, 2>>>>>>,
 VERLLVG |-> <<"VERLLV", <<<<4, 3>>>>>>,
 VERLLVH |-> <<"VERLLV", <<<<4, 1>>>>>>,
 VESLB |-> <<"VESL", <<<<4, 0>>>>>>,
 VESLF |-> <<"VESL", <<<<4, 2>>>>>>,
 VESLG |-> <<"VESL", <<<<4, 3>>>>>>,
 VESLH |-> <<"VESL", <<<<4, 1>>>>>>,
 VESLVB |-> <<"VESLV", <<<<4, 0>>>>>>,
 VESLVF |-> <<"VESLV", <<<<4, 2>>>>>>,
 VESLVG |-> <<"VESLV", <<<<4, 3>>>>>>,
 VESLVH |-> <<"VESLV", <<<<4, 1>>>>>>,
 VESRAB |-> <<"VESRA", <<<<4, 0>>>>>>,
 VESRAF |-> <<"VESRA", <<<<4, 2>>>>>>,
 VESRAG |-> <<"VESRA", <<<<4, 3>>>>>>,
 VESRAH |-> <<"VESRA", <<<<4, 1>>>>>>,
 VESRAVB |-> <<"VESRAV", <<<<4, 0>>>>>>,
 VESRAVF |-> <<"VESRAV", <<<<4, 2>>>>>>,
 VESRAVG |-> <<"VESRAV", <<<<4, 3>>>>>>,
 VESRAVH |-> <<"VESRAV", <<<<4, 1>>>>>>,
 VESRLB |-> <<"VESRL", <<<<4, 0>>>>>>,
 VESRLF |-> <<"VESRL", <<<<4, 2>>>>>>,
 VESRLG |-> <<"VESRL", <<<<4, 3>>>>>>,
 VESRLH |-> <<"VESRL", <<<<4, 1>>>>>>,
 VESRLVB |-> <<"VESRLV", <<<<4, 0>>>>>>,
 VESRLVF |-> <<"VESRLV", <<<<4, 2>>>>>>,
 VESRLVG |-> <<"VESRLV", <<<<4, 3>>>>>>,
 VESRLVH |-> <<"VESRLV", <<<<4, 1>>>>>>,
 VFADB |-> <<"VFA", <<<<4, 3>>, <<5, 0>>>>>>,
 VFAEB |-> <<"VFAE", <<<<4, 0>>>>>>,
 VFAEBS |-> <<"VFAE", <<<<4, 0>>>>>>,
 VFAEF |-> <<"VFAE", <<<<4, 2>>>>>>,
 VFAEFS |-> <<"VFAE", <<<<4, 2>>>>>>,
 VFAEH |-> <<"VFAE", <<<<4, 1>>>>>>,
 VFAEHS |-> <<"VFAE", <<<<4, 1>>>>>>,
 VFAEZB |-> <<"VFAE", <<<<4, 0>>>>>>,
 VFAEZBS |-> <<"VFAE", <<<<4, 0>>>>>>,
 VFAEZF |-> <<"VFAE", <<<<4, 2>>>>>>,
 VFAEZFS |-> <<"VFAE", <<<<4, 2>>>>>>,
 VFAEZH |-> <<"VFAE", <<<<4, 1>>>>>>,
 VFAEZHS |-> <<"VFAE", <<<<4, 1>>>>>>,
 VFASB |-> <<"VFA", <<<<4, 2>>, <<5, 0>>>>>>,
 VFCEDB |-> <<"VFCE", <<<<4, 3>>, <<5, 0>>, <<6, 0>>>>>>,
 VFCEDBS |-> <<"VFCE", <<<<4, 3>>, <<5, 0>>, <<6, 1>>>>>>,
 VFCESB |-> <<"VFCE", <<<<4, 2>>, <<5, 0>>, <<6, 0>>>>>>,
 VFCESBS |-> <<"VFCE", <<<<4, 2>>, <<5, 0>>, <<6, 1>>>>>>,
 VFCHDB |-> <<"VFCH", <<<<4, 3>>, <<5, 0>>, <<6, 0>>>>>>,
 VFCHDBS |-> <<"VFCH", <<<<4, 3>>, <<5, 0>>, <<6, 1>>>>>>,
 VFCHEDB |-> <<"VFCHE", <<<<4, 3>>, <<5, 0>>, <<6, 0>>>>>>,
 VFCHEDBS |-> <<"VFCHE", <<<<4, 3>>, <<5, 0>>, <<6, 1>>>>>>,
 VFCHESB |-> <<"VFCHE", <<<<4, 2>>, <<5, 0>>, <<6, 0>>>>>>,
 VFCHESBS |-> <<"VFCHE", <<<<4, 2>>, <<5, 0>>, <<6, 1>>>>>>,
 VFCHSB |-> <<"VFCH", <<<<4, 2>>, <<5, 0>>, <<6, 0>>>>>>,
 VFCHSBS |-> <<"VFCH", <<<<4, 2>>, <<5, 0>>, <<6, 1>>>>>>,
 VFDDB |-> <<"VFD", <<<<4, 3>>, <<5, 0>>>>>>,
 VFDSB |-> <<"VFD", <<<<4, 2>>, <<5, 0>>>>>>,
 VFEEB |-> <<"VFEE", <<<<4, 0>>>>>>,
 VFEEBS |-> <<"VFEE", <<<<4, 0>>, <<5, 1>>>>>>,
 VFEEF |-> <<"VFEE", <<<<4, 2>>>>>>,
 VFEEFS |-> <<"VFEE", <<<<4, 2>>, <<5, 1>>>>>>,
 VFEEGS |-> <<"VFEE", <<<<4, 1>>, <<5, 1>>>>>>,
 VFEEH |-> <<"VFEE", <<<<4, 1>>>>>>,
 VFEEZB |-> <<"VFEE", <<<<4, 0>>, <<5, 2>>>>>>,
 VFEEZBS |-> <<"VFEE", <<<<4, 0>>, <<5, 3>>>>>>,
 VFEEZF |-> <<"VFEE", <<<<4, 2>>, <<5, 2>>>>>>,
 VFEEZFS |-> <<"VFEE", <<<<4, 2>>, <<5, 3>>>>>>,
 VFEEZH |-> <<"VFEE", <<<<4, 1>>, <<5, 2>>>>>>,
 VFEEZHS |-> <<"VFEE", <<<<4, 1>>, <<5, 3>>>>>>,
 VFENEB |-> <<"VFENE", <<<<4, 0>>>>>>,
 VFENEBS |-> <<"VFENE", <<<<4, 0>>, <<5, 1>>>>>>,
 VFENEF |-> <<"VFENE", <<<<4, 2>>>>>>,
 VFENEFS |-> <<"VFENE", <<<<4, 2>>, <<5, 1>>>>>>,
 VFENEH |-> <<"VFENE", <<<<4, 1>>>>>>,
 VFENEHS |-> <<"VFENE", <<<<4, 1>>, <<5, 1>>>>>>,
 VFENEZB |-> <<"VFENE", <<<<4, 0>>, <<5, 2>>>>>>,
 VFENEZBS |-> <<"VFENE", <<<<4, 0>>, <<5, 3>>>>>>,
 VFENEZF |-> <<"VFENE", <<<<4, 2>>, <<5, 2>>>>>>,
 VFENEZFS |-> <<"VFENE", <<<<4, 2>>, <<5, 3>>>>>>,
 VFENEZH |-> <<"VFENE", <<<<4, 1>>, <<5, 2>>>>>>,
 VFENEZHS |-> <<"VFENE", <<<<4, 1>>, <<5, 3>>>>>>,
 VFIDB |-> <<"VFI", <<<<3, 3>>>>>>,
 VFISB |-> <<"VFI", <<<<3, 2>>>>>>,
 VFKEDB |-> <<"VFCE", <<<<4, 3>>, <<5, 4>>, <<6, 0>>>>>>,
 VFKEDBS |-> <<"VFCE", <<<<4, 3>>, <<5, 4>>, <<6, 1>>>>>>,
 VFKESB |-> <<"VFCE", <<<<4, 2>>, <<5, 4>>, <<6, 0>>>>>>,
 VFKESBS |-> <<"VFCE", <<<<4, 2>>, <<5, 4>>, <<6, 1>>>>>>,
 VFKHDB |-> <<"VFCH", <<<<4, 3>>, <<5, 4>>, <<6, 0>>>>>>,
 VFKHDBS |-> <<"VFCH", <<<<4, 3>>, <<5, 4>>, <<6, 1>>>>>>,
 VFKHEDB |-> <<"VFCHE", <<<<4, 3>>, <<5, 4>>, <<6, 0>>>>>>,
 VFKHEDBS |-> <<"VFCHE", <<<<4, 3>>, <<5, 4>>, <<6, 1>>>>>>,
 VFKHESB |-> <<"VFCHE", <<<<4, 2>>, <<5, 4>>, <<6, 0>>>>>>,
 VFKHESBS |-> <<"VFCHE", <<<<4, 2>>, <<5, 4>>, <<6, 1>>>>>>,
 VFKHSB |-> <<"VFCH", <<<<4, 2>>, <<5, 4>>, <<6, 0>>>>>>,
 VFKHSBS |-> <<"VFCH", <<<<4, 2>>, <<5, 4>>, <<6, 1>>>>>>,
 VFLCDB |-> <<"VFPSO", <<<<3, 3>>, <<4, 0>>, <<5, 0>>>>>>,
 VFLCSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 0>>, <<5, 0>>>>>>,
 VFLLS |-> <<"VFLL", <<<<3, 2>>, <<4, 0>>>>>>,
 VFLNDB |-> <<"VFPSO", <<<<3, 3>>, <<4, 0>>, <<5, 1>>>>>>,
 VFLNSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 0>>, <<5, 1>>>>>>,
 VFLPDB |-> <<"VFPSO", <<<<3, 3>>, <<4, 0>>, <<5, 2>>>>>>,
 VFLPSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 0>>, <<5, 2>>>>>>,
 VFLRD |-> <<"VFLR", <<<<3, 3>>>>>>,
 VFMADB |-> <<"VFMA", <<<<5, 0>>, <<6, 3>>>>>>,
 VFMASB |-> <<"VFMA", <<<<5, 0>>, <<6, 2>>>>>>,
 VFMAXDB |-> <<"VFMAX", <<<<4, 3>>, <<5, 0>>>>>>,
 VFMAXSB |-> <<"VFMAX", <<<<4, 2>>, <<5, 0>>>>>>,
 VFMDB |-> <<"VFM", <<<<4, 3>>, <<5, 0>>>>>>,
 VFMINDB |-> <<"VFMIN", <<<<4, 3>>, <<5, 0>>>>>>,
 VFMINSB |-> <<"VFMIN", <<<<4, 2>>, <<5, 0>>>>>>,
 VFMSB |-> <<"VFM", <<<<4, 2>>, <<5, 0>>>>>>,
 VFMSDB |-> <<"VFMS", <<<<5, 0>>, <<6, 3>>>>>>,
 VFMSSB |-> <<"VFMS", <<<<5, 0>>, <<6, 2>>>>>>,
 VFNMADB |-> <<"VFNMA", <<<<5, 0>>, <<6, 3>>>>>>,
 VFNMASB |-> <<"VFNMA", <<<<5, 0>>, <<6, 2>>>>>>,
 VFNMSDB |-> <<"VFNMS", <<<<5, 0>>, <<6, 3>>>>>>,
 VFNMSSB |-> <<"VFNMS", <<<<5, 0>>, <<6, 2>>>>>>,
 VFPSODB |-> <<"VFPSO", <<<<3, 3>>, <<4, 0>>>>>>,
 VFPSOSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 0>>>>>>,
 VFSDB |-> <<"VFS", <<<<4, 3>>, <<5, 0>>>>>>,
 VFSQDB |-> <<"VFSQ", <<<<3, 3>>, <<4, 0>>>>>>,
 VFSQSB |-> <<"VFSQ", <<<<3, 2>>, <<4, 0>>>>>>,
 VFSSB |-> <<"VFS", <<<<4, 2>>, <<5, 0>>>>>>,
 VFTCIDB |-> <<"VFTCI", <<<<4, 3>>, <<5, 0>>>>>>,
 VFTCISB |-> <<"VFTCI", <<<<4, 2>>, <<5, 0>>>>>>,
 VGFMAB |-> <<"VGFMA", <<<<5, 0>>>>>>,
 VGFMAF |-> <<"VGFMA", <<<<5, 2>>>>>>,
 VGFMAG |-> <<"VGFMA", <<<<5, 3>>>>>>,
 VGFMAH |-> <<"VGFMA", <<<<5, 1>>>>>>,
 VGFMB |-> <<"VGFM", <<<<4, 0>>>>>>,
 VGFMF |-> <<"VGFM", <<<<4, 2>>>>>>,
 VGFMG |-> <<"VGFM", <<<<4, 3>>>>>>,
 VGFMH |-> <<"VGFM", <<<<4, 1>>>>>>,
 VGMB |-> <<"VGM", <<<<4, 0>>>>>>,
 VGMF |-> <<"VGM", <<<<4, 2>>>>>>,
 VGMG |-> <<"VGM", <<<<4, 3>>>>>>,
 VGMH |-> <<"VGM", <<<<4, 1>>>>>>,
 VISTRB |-> <<"VISTR", <<<<3, 0>>>>>>,
 VISTRBS |-> <<"VISTR", <<<<3, 0>>, <<4, 1>>>>>>,
 VISTRF |-> <<"VISTR", <<<<3, 2>>>>>>,
 VISTRFS |-> <<"VISTR", <<<<3, 2>>, <<4, 1>>>>>>,
 VISTRH |-> <<"VISTR", <<<<3, 1>>>>>>,
 VISTRHS |-> <<"VISTR", <<<<3, 1>>, <<4, 1>>>>>>,
 VLBRF |-> <<"VLBR", <<<<3, 2>>>>>>,
 VLBRG |-> <<"VLBR", <<<<3, 3>>>>>>,
 VLBRH |-> <<"VLBR", <<<<3, 1>>>>>>,
 VLBRQ |-> <<"VLBR", <<<<3, 4>>>>>>,
 VLBRREPF |-> <<"VLBRREP", <<<<3, 2>>>>>>,
 VLBRREPG |-> <<"VLBRREP", <<<<3, 3>>>>>>,
 VLBRREPH |-> <<"VLBRREP", <<<<3, 1>>>>>>,
 VLCB |-> <<"VLC", <<<<3, 0>>>>>>,
 VLCF |-> <<"VLC", <<<<3, 2>>>>>>,
 VLCG |-> <<"VLC", <<<<3, 3>>>>>>,
 VLCH |-> <<"VLC", <<<<3, 1>>>>>>,
 VLDE |-> <<"VFLL", <<>>>>,
 VLDEB |-> <<"VFLL", <<<<3, 2>>, <<4, 0>>>>>>,
 VLED |-> <<"VFLR", <<>>>>,
 VLEDB |-> <<"VFLR", <<<<3, 3>>>>>>,
 VLERF |-> <<"VLER", <<<<3, 2>>>>>>,
 VLERG |-> <<"VLER", <<<<3, 3>>>>>>,
 VLERH |-> <<"VLER", <<<<3, 1>>>>>>,
 VLGVB |-> <<"VLGV", <<<<4, 0>>>>>>,
 VLGVF |-> <<"VLGV", <<<<4, 2>>>>>>,
 VLGVG |-> <<"VLGV", <<<<4, 3>>>>>>,
 VLGVH |-> <<"VLGV", <<<<4, 1>>>>>>,
 VLLEBRZE |-> <<"VLLEBRZ", <<<<3, 6>>>>>>,
 VLLEBRZF |-> <<"VLLEBRZ", <<<<3, 2>>>>>>,
 VLLEBRZG |-> <<"VLLEBRZ", <<<<3, 3>>>>>>,
 VLLEBRZH |-> <<"VLLEBRZ", <<<<3, 1>>>>>>,
 VLLEZB |-> <<"VLLEZ", <<<<3, 0>>>>>>,
 VLLEZF |-> <<"VLLEZ", <<<<3, 2>>>>>>,
 VLLEZG |-> <<"VLLEZ", <<<<3, 3>>>>>>,
 VLLEZH |-> <<"VLLEZ", <<<<3, 1>>>>>>,
 VLLEZLF |-> <<"VLLEZ", <<<<3, 6>>>>>>,
 VLPB |-> <<"VLP", <<<<3, 0>>>>>>,
 VLPF |-> <<"VLP", <<<<3, 2>>>>>>,
 VLPG |-> <<"VLP", <<<<3, 3>>>>>>,
 VLPH |-> <<"VLP", <<<<3, 1>>>>>>,
 VLREPB |-> <<"VLREP", <<<<3, 0>>>>>>,
 VLREPF |-> <<"VLREP", <<<<3, 2>>>>>>,
 VLREPG |-> <<"VLREP", <<<<3, 3>>>>>>,
 VLREPH |-> <<"VLREP", <<<<3, 1>>>>>>,
 VLVGB |-> <<"VLVG", <<<<4, 0>>>>>>,
 VLVGF |-> <<"VLVG", <<<<4, 2>>>>>>,
 VLVGG |-> <<"VLVG", <<<<4, 3>>>>>>,
 VLVGH |-> <<"VLVG", <<<<4, 1>>>>>>,
 VMAEB |-> <<"VMAE", <<<<5, 0>>>>>>,
 VMAEF |-> <<"VMAE", <<<<5, 2>>>>>>,
 VMAEH |-> <<"VMAE", <<<<5, 1>>>>>>,
 VMAHB |-> <<"VMAH", <<<<5, 0>>>>>>,
 VMAHF |-> <<"VMAH", <<<<5, 2>>>>>>,
 VMAHH |-> <<"VMAH", <<<<5, 1>>>>>>,
 VMALB |-> <<"VMAL", <<<<5, 0>>>>>>,
 VMALEB |-> <<"VMALE", <<<<5, 0>>>>>>,
 VMALEF |-> <<"VMALE", <<<<5, 2>>>>>>,
 VMALEH |-> <<"VMALE", <<<<5, 1>>>>>>,
 VMALF |-> <<"VMAL", <<<<5, 2>>>>>>,
 VMALHB |-> <<"VMALH", <<<<5, 0>>>>>>,
 VMALHF |-> <<"VMALH", <<<<5, 2>>>>>>,
 VMALHH |-> <<"VMALH", <<<<5, 1>>>>>>,
 VMALHW |-> <<"VMAL", <<<<5, 1>>>>>>,
 VMALOB |-> <<"VMALO", <<<<5, 0>>>>>>,
 VMALOF |-> <<"VMALO", <<<<5, 2>>>>>>,
 VMALOH |-> <<"VMALO", <<<<5, 1>>>>>>,
 VMAOB |-> <<"VMAO", <<<<5, 0>>>>>>,
 VMAOF |-> <<"VMAO", <<<<5, 2>>>>>>,
 VMAOH |-> <<"VMAO", <<<<5, 1>>>>>>,
 VMEB |-> <<"VME", <<<<4, 0>>>>>>,
 VMEF |-> <<"VME", <<<<4, 2>>>>>>,
 VMEH |-> <<"VME", <<<<4, 1>>>>>>,
 VMHB |-> <<"VMH", <<<<4, 0>>>>>>,
 VMHF |-> <<"VMH", <<<<4, 2>>>>>>,
 VMHH |-> <<"VMH", <<<<4, 1>>>>>>,
 VMLB |-> <<"VML", <<<<4, 0>>>>>>,
 VMLEB |-> <<"VMLE", <<<<4, 0>>>>>>,
 VMLEF |-> <<"VMLE", <<<<4, 2>>>>>>,
 VMLEH |-> <<"VMLE", <<<<4, 1>>>>>>,
 VMLF |-> <<"VML", <<<<4, 2>>>>>>,
 VMLHB |-> <<"VMLH", <<<<4, 0>>>>>>,
 VMLHF |-> <<"VMLH", <<<<4, 2>>>>>>,
 VMLHH |-> <<"VMLH", <<<<4, 1>>>>>>,
 VMLHW |-> <<"VML", <<<<4, 1>>>>>>,
 VMLOB |-> <<"VMLO", <<<<4, 0>>>>>>,
 VMLOF |-> <<"VMLO", <<<<4, 2>>>>>>,
 VMLOH |-> <<"VMLO", <<<<4, 1>>>>>>,
 VMNB |-> <<"VMN", <<<<4, 0>>>>>>,
 VMNF |-> <<"VMN", <<<<4, 2>>>>>>,
 VMNG |-> <<"VMN", <<<<4, 3>>>>>>,
 VMNH |-> <<"VMN", <<<<4, 1>>>>>>,
 VMNLB |-> <<"VMNL", <<<<4, 0>>>>>>,
 VMNLF |-> <<"VMNL", <<<<4, 2>>>>>>,
 VMNLG |-> <<"VMNL", <<<<4, 3>>>>>>,
 VMNLH |-> <<"VMNL", <<<<4, 1>>>>>>,
 VMOB |-> <<"VMO", <<<<4, 0>>>>>>,
 VMOF |-> <<"VMO", <<<<4, 2>>>>>>,
 VMOH |-> <<"VMO", <<<<4, 1>>>>>>,
 VMRHB |-> <<"VMRH", <<<<4, 0>>>>>>,
 VMRHF |-> <<"VMRH", <<<<4, 2>>>>>>,
 VMRHG |-> <<"VMRH", <<<<4, 3>>>>>>,
 VMRHH |-> <<"VMRH", <<<<4, 1>>>>>>,
 VMRLB |-> <<"VMRL", <<<<4, 0>>>>>>,
 VMRLF |-> <<"VMRL", <<<<4, 2>>>>>>,
 VMRLG |-> <<"VMRL", <<<<4, 3>>>>>>,
 VMRLH |-> <<"VMRL", <<<<4, 1>>>>>>,
 VMSLG |-> <<"VMSL", <<<<5, 3>>>>>>,
 VMXB |-> <<"VMX", <<<<4, 0>>>>>>,
 VMXF |-> <<"VMX", <<<<4, 2>>>>>>,
 VMXG |-> <<"VMX", <<<<4, 3>>>>>>,
 VMXH |-> <<"VMX", <<<<4, 1>>>>>>,
 VMXLB |-> <<"VMXL", <<<<4, 0>>>>>>,
 VMXLF |-> <<"VMXL", <<<<4, 2>>>>>>,
 VMXLG |-> <<"VMXL", <<<<4, 3>>>>>>,
 VMXLH |-> <<"VMXL", <<<<4, 1>>>>>>,
 VNOT |-> <<"VNO", <<<<3, 0>>>>>>,
 VONE |-> <<"VGBM", <<<<2, 65535>>>>>>,
 VPKF |-> <<"VPK", <<<<4, 2>>>>>>,
 VPKG |-> <<"VPK", <<<<4, 3>>>>>>,
 VPKH |-> <<"VPK", <<<<4, 1>>>>>>,
 VPKLSF |-> <<"VPKLS", <<<<4, 2>>, <<5, 0>>>>>>,
 VPKLSFS |-> <<"VPKLS", <<<<4, 2>>, <<5, 1>>>>>>,
 VPKLSG |-> <<"VPKLS", <<<<4, 3>>, <<5, 0>>>>>>,
 VPKLSGS |-> <<"VPKLS", <<<<4, 3>>, <<5, 1>>>>>>,
 VPKLSH |-> <<"VPKLS", <<<<4, 1>>, <<5, 0>>>>>>,
 VPKLSHS |-> <<"VPKLS", <<<<4, 1>>, <<5, 1>>>>>>,
 VPKSF |-> <<"VPKS", <<<<4, 2>>, <<5, 0>>>>>>,
 VPKSFS |-> <<"VPKS", <<<<4, 2>>, <<5, 1>>>>>>,
 VPKSG |-> <<"VPKS", <<<<4, 3>>, <<5, 0>>>>>>,
 VPKSGS |-> <<"VPKS", <<<<4, 3>>, <<5, 1>>>>>>,
 VPKSH |-> <<"VPKS", <<<<4, 1>>, <<5, 0>>>>>>,
 VPKSHS |-> <<"VPKS", <<<<4, 1>>, <<5, 1>>>>>>,
 VPOPCTB |-> <<"VPOPCT", <<<<3, 0>>>>>>,
 VPOPCTF |-> <<"VPOPCT", <<<<3, 2>>>>>>,
 VPOPCTG |-> <<"VPOPCT", <<<<3, 3>>>>>>,
 VPOPCTH |-> <<"VPOPCT", <<<<3, 1>>>>>>,
 VREPB |-> <<"VREP", <<<<4, 0>>>>>>,
 VREPF |-> <<"VREP", <<<<4, 2>>>>>>,
 VREPG |-> <<"VREP", <<<<4, 3>>>>>>,
 VREPH |-> <<"VREP", <<<<4, 1>>>>>>,
 VREPIB |-> <<"VREPI", <<<<3, 0>>>>>>,
 VREPIF |-> <<"VREPI", <<<<3, 2>>>>>>,
 VREPIG |-> <<"VREPI", <<<<3, 3>>>>>>,
 VREPIH |-> <<"VREPI", <<<<3, 1>>>>>>,
 VSB |-> <<"VS", <<<<4, 0>>>>>>,
 VSBCBIQ |-> <<"VSBCBI", <<<<5, 4>>>>>>,
 VSBIQ |-> <<"VSBI", <<<<5, 4>>>>>>,
 VSCBIB |-> <<"VSCBI", <<<<4, 0>>>>>>,
 VSCBIF |-> <<"VSCBI", <<<<4, 2>>>>>>,
 VSCBIG |-> <<"VSCBI", <<<<4, 3>>>>>>,
 VSCBIH |-> <<"VSCBI", <<<<4, 1>>>>>>,
 VSCBIQ |-> <<"VSCBI", <<<<4, 4>>>>>>,
 VSEGB |-> <<"VSEG", <<<<3, 0>>>>>>,
 VSEGF |-> <<"VSEG", <<<<3, 2>>>>>>,
 VSEGH |-> <<"VSEG", <<<<3, 1>>>>>>,
 VSF |-> <<"VS", <<<<4, 2>>>>>>,
 VSG |-> <<"VS", <<<<4, 3>>>>>>,
 VSH |-> <<"VS", <<<<4, 1>>>>>>,
 VSQ |-> <<"VS", <<<<4, 4>>>>>>,
 VSTBRF |-> <<"VSTBR", <<<<3, 2>>>>>>,
 VSTBRG |-> <<"VSTBR", <<<<3, 3>>>>>>,
 VSTBRH |-> <<"VSTBR", <<<<3, 1>>>>>>,
 VSTBRQ |-> <<"VSTBR", <<<<3, 4>>>>>>,
 VSTERF |-> <<"VSTER", <<<<3, 2>>>>>>,
 VSTERG |-> <<"VSTER", <<<<3, 3>>>>>>,
 VSTERH |-> <<"VSTER", <<<<3, 1>>>>>>,
 VSTRCB |-> <<"VSTRC", <<<<5, 0>>>>>>,
 VSTRCBS |-> <<"VSTRC", <<<<5, 0>>>>>>,
 VSTRCF |-> <<"VSTRC", <<<<5, 2>>>>>>,
 VSTRCFS |-> <<"VSTRC", <<<<5, 2>>>>>>,
 VSTRCH |-> <<"VSTRC", <<<<5, 1>>>>>>,
 VSTRCHS |-> <<"VSTRC", <<<<5, 1>>>>>>,
 VSTRCZB |-> <<"VSTRC", <<<<5, 0>>>>>>,
 VSTRCZBS |-> <<"VSTRC", <<<<5, 0>>>>>>,
 VSTRCZF |-> <<"VSTRC", <<<<5, 2>>>>>>,
 VSTRCZFS |-> <<"VSTRC", <<<<5, 2>>>>>>,
 VSTRCZH |-> <<"VSTRC", <<<<5, 1>>>>>>,
 VSTRCZHS |-> <<"VSTRC", <<<<5, 1>>>>>>,
 VSTRSB |-> <<"VSTRS", <<<<5, 0>>>>>>,
 VSTRSF |-> <<"VSTRS", <<<<5, 2>>>>>>,
 VSTRSH |-> <<"VSTRS", <<<<5, 1>>>>>>,
 VSTRSZB |-> <<"VSTRS", <<<<5, 0>>, <<6, 2>>>>>>,
 VSUMB |-> <<"VSUM", <<<<4, 0>>>>>>,
 VSUMGF |-> <<"VSUMG", <<<<4, 2>>>>>>,
 VSUMGH |-> <<"VSUMG", <<<<4, 1>>>>>>,
 VSUMH |-> <<"VSUM", <<<<4, 1>>>>>>,
 VSUMQF |-> <<"VSUMQ", <<<<4, 2>>>>>>,
 VSUMQG |-> <<"VSUMQ", <<<<4, 3>>>>>>,
 VUPHB |-> <<"VUPH", <<<<3, 0>>>>>>,
 VUPHF |-> <<"VUPH", <<<<3, 2>>>>>>,
 VUPHH |-> <<"VUPH", <<<<3, 1>>>>>>,
 VUPLB |-> <<"VUPL", <<<<3, 0>>>>>>,
 VUPLF |-> <<"VUPL", <<<<3, 2>>>>>>,
 VUPLHB |-> <<"VUPLH", <<<<3, 0>>>>>>,
 VUPLHF |-> <<"VUPLH", <<<<3, 2>>>>>>,
 VUPLHG |-> <<"VUPLH", <<<<3, 1>>>>>>,
 VUPLHW |-> <<"VUPL", <<<<3, 1>>>>>>,
 VUPLLB |-> <<"VUPLL", <<<<3, 0>>>>>>,
 VUPLLF |-> <<"VUPLL", <<<<3, 2>>>>>>,
 VUPLLH |-> <<"VUPLL", <<<<3, 1>>>>>>,
 VZERO |-> <<"VGBM", <<<<2, 0>>>>>>,
 WCDGB |-> <<"VCFPS", <<<<3, 2>>>>>>,
 WCDLGB |-> <<"VCFPL", <<<<3, 3>>>>>>,
 WCEFB |-> <<"VCFPS", <<<<3, 2>>>>>>,
 WCELFB |-> <<"VCFPL", <<<<3, 2>>>>>>,
 WCFEB |-> <<"VCSFP", <<<<3, 2>>>>>>,
 WCGDB |-> <<"VCSFP", <<<<3, 3>>>>>>,
 WCLFEB |-> <<"VCLFP", <<<<3, 2>>>>>>,
 WCLGDB |-> <<"VCLGD", <<<<3, 3>>>>>>,
 WFADB |-> <<"VFA", <<<<4, 3>>, <<5, 8>>>>>>,
 WFASB |-> <<"VFA", <<<<4, 2>>, <<5, 8>>>>>>,
 WFAXB |-> <<"VFA", <<<<4, 4>>, <<5, 8>>>>>>,
 WFCDB |-> <<"WFC", <<<<3, 3>>, <<4, 0>>>>>>,
 WFCEDB |-> <<"VFCE", <<<<4, 3>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCEDBS |-> <<"VFCE", <<<<4, 3>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCESB |-> <<"VFCE", <<<<4, 2>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCESBS |-> <<"VFCE", <<<<4, 2>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCEXB |-> <<"VFCE", <<<<4, 4>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCEXBS |-> <<"VFCE", <<<<4, 4>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCHDB |-> <<"VFCH", <<<<4, 3>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCHDBS |-> <<"VFCH", <<<<4, 3>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCHEDB |-> <<"VFCHE", <<<<4, 3>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCHEDBS |-> <<"VFCHE", <<<<4, 3>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCHESB |-> <<"VFCHE", <<<<4, 2>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCHESBS |-> <<"VFCHE", <<<<4, 2>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCHEXB |-> <<"VFCHE", <<<<4, 4>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCHEXBS |-> <<"VFCHE", <<<<4, 4>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCHSB |-> <<"VFCH", <<<<4, 2>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCHSBS |-> <<"VFCH", <<<<4, 2>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCHXB |-> <<"VFCH", <<<<4, 4>>, <<5, 8>>, <<6, 0>>>>>>,
 WFCHXBS |-> <<"VFCH", <<<<4, 4>>, <<5, 8>>, <<6, 1>>>>>>,
 WFCSB |-> <<"WFC", <<<<3, 2>>, <<4, 0>>>>>>,
 WFCXB |-> <<"WFC", <<<<3, 4>>, <<4, 0>>>>>>,
 WFDDB |-> <<"VFD", <<<<4, 3>>, <<5, 8>>>>>>,
 WFDSB |-> <<"VFD", <<<<4, 2>>, <<5, 8>>>>>>,
 WFDXB |-> <<"VFD", <<<<4, 4>>, <<5, 8>>>>>>,
 WFIDB |-> <<"VFI", <<<<3, 3>>>>>>,
 WFISB |-> <<"VFI", <<<<3, 2>>>>>>,
 WFIXB |-> <<"VFI", <<<<3, 4>>>>>>,
 WFKDB |-> <<"WFK", <<<<3, 3>>, <<4, 0>>>>>>,
 WFKEDB |-> <<"VFCE", <<<<4, 3>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKEDBS |-> <<"VFCE", <<<<4, 3>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKESB |-> <<"VFCE", <<<<4, 2>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKESBS |-> <<"VFCE", <<<<4, 2>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKEXB |-> <<"VFCE", <<<<4, 4>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKEXBS |-> <<"VFCE", <<<<4, 4>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKHDB |-> <<"VFCH", <<<<4, 3>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKHDBS |-> <<"VFCH", <<<<4, 3>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKHEDB |-> <<"VFCHE", <<<<4, 3>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKHEDBS |-> <<"VFCHE", <<<<4, 3>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKHESB |-> <<"VFCHE", <<<<4, 2>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKHESBS |-> <<"VFCHE", <<<<4, 2>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKHEXB |-> <<"VFCHE", <<<<4, 4>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKHEXBS |-> <<"VFCHE", <<<<4, 4>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKHSB |-> <<"VFCH", <<<<4, 2>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKHSBS |-> <<"VFCH", <<<<4, 2>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKHXB |-> <<"VFCH", <<<<4, 4>>, <<5, 12>>, <<6, 0>>>>>>,
 WFKHXBS |-> <<"VFCH", <<<<4, 4>>, <<5, 12>>, <<6, 1>>>>>>,
 WFKSB |-> <<"WFK", <<<<3, 2>>, <<4, 0>>>>>>,
 WFKXB |-> <<"WFK", <<<<3, 4>>, <<4, 0>>>>>>,
 WFLCDB |-> <<"VFPSO", <<<<3, 3>>, <<4, 8>>, <<5, 0>>>>>>,
 WFLCSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 8>>, <<5, 0>>>>>>,
 WFLCXB |-> <<"VFPSO", <<<<3, 4>>, <<4, 8>>, <<5, 0>>>>>>,
 WFLLD |-> <<"VFLL", <<<<3, 3>>, <<4, 8>>>>>>,
 WFLLS |-> <<"VFLL", <<<<3, 2>>, <<4, 8>>>>>>,
 WFLNDB |-> <<"VFPSO", <<<<3, 3>>, <<4, 8>>, <<5, 1>>>>>>,
 WFLNSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 8>>, <<5, 1>>>>>>,
 WFLNXB |-> <<"VFPSO", <<<<3, 4>>, <<4, 8>>, <<5, 1>>>>>>,
 WFLPDB |-> <<"VFPSO", <<<<3, 3>>, <<4, 8>>, <<5, 2>>>>>>,
 WFLPSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 8>>, <<5, 2>>>>>>,
 WFLPXB |-> <<"VFPSO", <<<<3, 4>>, <<4, 8>>, <<5, 2>>>>>>,
 WFLRD |-> <<"VFLR", <<<<3, 3>>>>>>,
 WFLRX |-> <<"VFLR", <<<<3, 4>>>>>>,
 WFMADB |-> <<"VFMA", <<<<5, 8>>, <<6, 3>>>>>>,
 WFMASB |-> <<"VFMA", <<<<5, 8>>, <<6, 2>>>>>>,
 WFMAXB |-> <<"VFMA", <<<<5, 8>>, <<6, 4>>>>>>,
 WFMAXDB |-> <<"VFMAX", <<<<4, 3>>, <<5, 8>>>>>>,
 WFMAXSB |-> <<"VFMAX", <<<<4, 2>>, <<5, 8>>>>>>,
 WFMAXXB |-> <<"VFMAX", <<<<4, 4>>, <<5, 8>>>>>>,
 WFMDB |-> <<"VFM", <<<<4, 3>>, <<5, 8>>>>>>,
 WFMINDB |-> <<"VFMIN", <<<<4, 3>>, <<5, 8>>>>>>,
 WFMINSB |-> <<"VFMIN", <<<<4, 2>>, <<5, 8>>>>>>,
 WFMINXB |-> <<"VFMIN", <<<<4, 4>>, <<5, 8>>>>>>,
 WFMSB |-> <<"VFM", <<<<4, 2>>, <<5, 8>>>>>>,
 WFMSDB |-> <<"VFMS", <<<<5, 8>>, <<6, 3>>>>>>,
 WFMSSB |-> <<"VFMS", <<<<5, 8>>, <<6, 2>>>>>>,
 WFMSXB |-> <<"VFMS", <<<<5, 8>>, <<6, 4>>>>>>,
 WFMXB |-> <<"VFM", <<<<4, 4>>, <<5, 8>>>>>>,
 WFNMADB |-> <<"VFNMA", <<<<5, 8>>, <<6, 3>>>>>>,
 WFNMASB |-> <<"VFNMA", <<<<5, 8>>, <<6, 2>>>>>>,
 WFNMAXB |-> <<"VFNMA", <<<<5, 8>>, <<6, 4>>>>>>,
 WFNMSDB |-> <<"VFNMS", <<<<5, 8>>, <<6, 3>>>>>>,
 WFNMSSB |-> <<"VFNMS", <<<<5, 8>>, <<6, 2>>>>>>,
 WFNMSXB |-> <<"VFNMS", <<<<5, 8>>, <<6, 4>>>>>>,
 WFPSODB |-> <<"VFPSO", <<<<3, 3>>, <<4, 8>>>>>>,
 WFPSOSB |-> <<"VFPSO", <<<<3, 2>>, <<4, 8>>>>>>,
 WFPSOXB |-> <<"VFPSO", <<<<3, 4>>, <<4, 8>>>>>>,
 WFSDB |-> <<"VFS", <<<<4, 3>>, <<5, 8>>>>>>,
 WFSQDB |-> <<"VFSQ", <<<<3, 3>>, <<4, 8>>>>>>,
 WFSQSB |-> <<"VFSQ", <<<<3, 2>>, <<4, 8>>>>>>,
 WFSQXB |-> <<"VFSQ", <<<<3, 4>>, <<4, 8>>>>>>,
 WFSSB |-> <<"VFS", <<<<4, 2>>, <<5, 8>>>>>>,
 WFSXB |-> <<"VFS", <<<<4, 4>>, <<5, 8>>>>>>,
 WFTCIDB |-> <<"VFTCI", <<<<4, 3>>, <<5, 8>>>>>>,
 WFTCISB |-> <<"VFTCI", <<<<4, 2>>, <<5, 8>>>>>>,
 WFTCIXB |-> <<"VFTCI", <<<<4, 4>>, <<5, 8>>>>>>,
 WLDEB |-> <<"VFLL", <<<<3, 2>>, <<4, 8>>>>>>,
 WLEDB |-> <<"VFLR", <<<<3, 3>>>>>>,
 XHHR |-> <<"RXSBG", <<<<3, 0>>, <<4, 31>>>>>>,
 XHLR |-> <<"RXSBG", <<<<3, 0>>, <<4, 31>>, <<5, 32>>>>>>,
 XLHR |-> <<"RXSBG", <<<<3, 32>>, <<4, 63>>, <<5, 32>>>>>>
]
Mnemonics == UNION {Groups[i][4] : i \in DOMAIN Groups}
Machine == [n \in Mnemonics |-> LET i == CHOOSE i \in DOMAIN Groups : n \in Groups[i][4] IN [f |-> Groups[i][1], ops |-> Groups[i][2], opt |-> Groups[i][3]]]
=============================================================================
