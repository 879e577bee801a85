// The protocol's numbers, copied so that the checks do not take them from the code they check.
#pragma once
namespace K
{
enum : int
{
  MANU_DEV = 13,
  MANU_MERG = 165,
  MANU_SPROG = 44,
  MANU_ROCRAIL = 70,
  MANU_SPECTRUM = 80,
  MANU_MERG_VLCB = 250,
  MANU_VLCB = 250,
  MANU_SYSPIXIE = 249,
  MANU_RME = 248,
  ACK = 0x00,
  NAK = 0x01,
  HLT = 0x02,
  BON = 0x03,
  TOF = 0x04,
  TON = 0x05,
  ESTOP = 0x06,
  ARST = 0x07,
  RTOF = 0x08,
  RTON = 0x09,
  RESTP = 0x0a,
  RSTAT = 0x0c,
  QNN = 0x0d,
  RQNP = 0x10,
  RQMN = 0x11,
  KLOC = 0x21,
  QLOC = 0x22,
  DKEEP = 0x23,
  DBG1 = 0x30,
  EXTC = 0x3F,
  RLOC = 0x40,
  QCON = 0x41,
  SNN = 0x42,
  STMOD = 0x44,
  PCON = 0x45,
  KCON = 0x46,
  DSPD = 0x47,
  DFLG = 0x48,
  DFNON = 0x49,
  DFNOF = 0x4A,
  SSTAT = 0x4C,
  NNRSM = 0x4F,
  RQNN = 0x50,
  NNREL = 0x51,
  NNACK = 0x52,
  NNLRN = 0x53,
  NNULN = 0x54,
  NNCLR = 0x55,
  NNEVN = 0x56,
  NERD = 0x57,
  RQEVN = 0x58,
  WRACK = 0x59,
  RQDAT = 0x5A,
  RQDDS = 0x5B,
  BOOT = 0x5C,
  ENUM = 0x5D,
  NNRST = 0x5E,
  EXTC1 = 0x5F,
  DFUN = 0x60,
  GLOC = 0x61,
  ERR = 0x63,
  CMDERR = 0x6F,
  EVNLF = 0x70,
  NVRD = 0x71,
  NENRD = 0x72,
  RQNPN = 0x73,
  NUMEV = 0x74,
  CANID = 0x75,
  MODE = 0x76,
  RQSD = 0x78,
  EXTC2 = 0x7F,
  RDCC3 = 0x80,
  WCVO = 0x82,
  WCVB = 0x83,
  QCVS = 0x84,
  PCVS = 0x85,
  RDGN = 0x87,
  NVSETRD = 0x8E,
  ACON = 0x90,
  ACOF = 0x91,
  AREQ = 0x92,
  ARON = 0x93,
  AROF = 0x94,
  EVULN = 0x95,
  NVSET = 0x96,
  NVANS = 0x97,
  ASON = 0x98,
  ASOF = 0x99,
  ASRQ = 0x9A,
  PARAN = 0x9B,
  REVAL = 0x9C,
  ARSON = 0x9D,
  ARSOF = 0x9E,
  EXTC3 = 0x9F,
  RDCC4 = 0xA0,
  WCVS = 0xA2,
  HEARTB = 0xAB,
  SD = 0xAC,
  GRSP = 0xAF,
  ACON1 = 0xB0,
  ACOF1 = 0xB1,
  REQEV = 0xB2,
  ARON1 = 0xB3,
  AROF1 = 0xB4,
  NEVAL = 0xB5,
  PNN = 0xB6,
  ASON1 = 0xB8,
  ASOF1 = 0xB9,
  ARSON1 = 0xBD,
  ARSOF1 = 0xBE,
  EXTC4 = 0xBF,
  RDCC5 = 0xC0,
  WCVOA = 0xC1,
  CABDAT = 0xC2,
  DGN = 0xC7,
  FCLK = 0xCF,
  ACON2 = 0xD0,
  ACOF2 = 0xD1,
  EVLRN = 0xd2,
  EVANS = 0xd3,
  ARON2 = 0xD4,
  AROF2 = 0xD5,
  ASON2 = 0xD8,
  ASOF2 = 0xD9,
  ARSON2 = 0xDD,
  ARSOF2 = 0xDE,
  EXTC5 = 0xDF,
  RDCC6 = 0xE0,
  PLOC = 0xE1,
  NAME = 0xE2,
  STAT = 0xE3,
  ENACK = 0xE6,
  ESD = 0xE7,
  DTXC = 0xE9,
  PARAMS = 0xEF,
  ACON3 = 0xF0,
  ACOF3 = 0xF1,
  ENRSP = 0xF2,
  ARON3 = 0xF3,
  AROF3 = 0xF4,
  EVLRNI = 0xF5,
  ACDAT = 0xF6,
  ARDAT = 0xF7,
  ASON3 = 0xF8,
  ASOF3 = 0xF9,
  DDES = 0xFA,
  DDRS = 0xFB,
  DDWS = 0xFC,
  ARSON3 = 0xFD,
  ARSOF3 = 0xFE,
  EXTC6 = 0xFF,
  VCVS = 0xA4,
  CMDERR_INV_CMD = 1,
  CMDERR_NOT_LRN = 2,
  CMDERR_NOT_SETUP = 3,
  CMDERR_TOO_MANY_EVENTS = 4,
  CMDERR_NO_EV = 5,
  CMDERR_INV_EV_IDX = 6,
  CMDERR_INVALID_EVENT = 7,
  CMDERR_INV_EN_IDX = 8,
  CMDERR_INV_PARAM_IDX = 9,
  CMDERR_INV_NV_IDX = 10,
  CMDERR_INV_EV_VALUE = 11,
  CMDERR_INV_NV_VALUE = 12,
  CMDERR_LRN_OTHER = 13,
  GRSP_OK = 0,
  GRSP_UNKNOWN_NVM_TYPE = 254,
  GRSP_INVALID_DIAGNOSTIC = 253,
  GRSP_INVALID_SERVICE = 252,
  GRSP_INVALID_COMMAND_PARAMETER = 251,
  GRSP_INVALID_MODE = 250,
  SERVICE_ID_HIDDEN = 0,
  SERVICE_ID_MNS = 1,
  SERVICE_ID_NV = 2,
  SERVICE_ID_CAN = 3,
  SERVICE_ID_OLD_TEACH = 4,
  SERVICE_ID_PRODUCER = 5,
  SERVICE_ID_CONSUMER = 6,
  SERVICE_ID_TEACH = 7,
  SERVICE_ID_CONSUME_OWN_EVENTS = 8,
  SERVICE_ID_EVENTACK = 9,
  SERVICE_ID_BOOT = 10,
  SERVICE_ID_STREAMING = 17,
  PAR_NUM = 0,
  PAR_MANU = 1,
  PAR_MINVER = 2,
  PAR_MTYP = 3,
  PAR_EVTNUM = 4,
  PAR_EVNUM = 5,
  PAR_NVNUM = 6,
  PAR_MAJVER = 7,
  PAR_FLAGS = 8,
  PAR_CPUID = 9,
  PAR_BUSTYPE = 10,
  PAR_LOAD = 11,
  PAR_CPUMID = 15,
  PAR_CPUMAN = 19,
  PAR_BETA = 20,
  PF_NOEVENTS = 0,
  PF_CONSUMER = 1,
  PF_PRODUCER = 2,
  PF_COMBI = 3,
  PF_FLiM = 4,
  PF_NORMAL = 4,
  PF_BOOT = 8,
  PF_COE = 16,
  PF_LRN = 32,
  PF_VLCB = 64,
  PF_SD = 64,
  MODE_UNINITIALISED = 0xFF,
  MODE_SETUP = 0,
  MODE_NORMAL = 1,
  MODE_LEARN_ON = 0x08,
  MODE_LEARN_OFF = 0x09,
  MODE_EVENT_ACK_ON = 0x0A,
  MODE_EVENT_ACK_OFF = 0x0B,
  MODE_HEARTBEAT_ON = 0x0C,
  MODE_HEARTBEAT_OFF = 0x0D,
  MODE_BOOT = 0x0E,
  PB_CAN = 1,
  PB_ETH = 2,
  PB_MIWI = 3,
  PB_USB = 4,
  CPUM_MICROCHIP = 1,
  CPUM_ATMEL = 2,
  CPUM_ARM = 3,
};
}
