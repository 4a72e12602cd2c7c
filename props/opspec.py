"""The documented opcode table (comment at the top of
h800/instructions.py), transcribed once; the checks compare the code with
this copy, not with the comment."""

# five-bit operation code of the masked form:  s mmmmm 1 op
MASKED = {
    "BA": 0b01001,
    "DA": 0b00001,
    "WA": 0b01101,
    "BS": 0b11001,
    "DS": 0b10001,
    "WD": 0b11101,
    "NA": 0b01100,
    "NN": 0b01000,
    "LA": 0b11100,
    "LN": 0b11000,
    "TX": 0b10000,
    "TS": 0b00100,
    "HA": 0b10101,
    "SM": 0b00101,
    "CP": 0b10100,
}

# fixed bits 2-3 and operation code of the unmasked form:  s xx abc 0 op
UNMASKED = {
    "BA": (0b10, 0b01001),
    "DA": (0b10, 0b00001),
    "WA": (0b10, 0b01101),
    "BS": (0b10, 0b11001),
    "DS": (0b10, 0b10001),
    "WD": (0b10, 0b11101),
    "NA": (0b10, 0b01100),
    "NN": (0b10, 0b01000),
    "LA": (0b10, 0b11100),
    "LN": (0b10, 0b11000),
    "TX": (0b10, 0b10000),
    "TS": (0b10, 0b00100),
    "HA": (0b10, 0b10101),
    "SM": (0b10, 0b00101),
    "CP": (0b10, 0b10100),
    "BM": (0b00, 0b01011),
    "DM": (0b00, 0b00011),
    "BT": (0b10, 0b01011),
    "DT": (0b10, 0b00011),
    "MT": (0b00, 0b10000),
    "TN": (0b01, 0b10000),
    "CC": (0b01, 0b01000),
    "IT": (0b01, 0b11000),
    "EBA": (0b11, 0b01011),
    "EBS": (0b11, 0b11011),
    "RT": (0b11, 0b11000),
    "MPC": (0b10, 0b00000),
    "SWS": (0b10, 0b00110),
    "SPS": (0b10, 0b00010),
    "SWE": (0b10, 0b01110),
    "SPE": (0b10, 0b01010),
    "SSL": (0b10, 0b10110),
    "SS": (0b00, 0b00110),
    "EX": (0b00, 0b01110),
    "FBA": (0b01, 0b00001),
    "FDA": (0b01, 0b10001),
    "FBS": (0b01, 0b01001),
    "FDS": (0b01, 0b11001),
    "FBD": (0b01, 0b00101),
    "FDD": (0b01, 0b10101),
    "FBAU": (0b11, 0b00001),
    "FDAU": (0b11, 0b10001),
    "FBSU": (0b11, 0b01001),
    "FDSU": (0b11, 0b11001),
    "FBM": (0b11, 0b00101),
    "FDM": (0b11, 0b10101),
    "ULD": (0b11, 0b01101),
    "FBAE": (0b00, 0b00001),
    "FBSE": (0b00, 0b01001),
    "BD": (0b00, 0b00101),
    "DD": (0b00, 0b10101),
    "FFN": (0b00, 0b01101),
    "FCON": (0b00, 0b11101),
    "FLN": (0b00, 0b11000),
    "FNN": (0b10, 0b01100),
}

# operation code of peripheral instructions:  pppppp 1 op
PERIPHERAL = {
    "RF": 0b11010,
    "RB": 0b01010,
    "WF": 0b01110,
    "RW": 0b00010,
}

# print instructions:  s 00 abc 1 op
PRINT = {
    "PRA": 0b00110,
    "PRD": 0b00110,
    "PRO": 0b00110,
}

# S:  s 00 000 0 00111      PR:  all zero
SIMULATOR = 0b00111

CLASSES = {
    "BA": "BinaryAdd",
    "DA": "DecimalAdd",
    "WA": "WordAdd",
    "BS": "BinarySubtract",
    "DS": "DecimalSubtract",
    "WD": "WordDifference",
    "NA": "NotEqualAlphabetic",
    "NN": "NotEqualNumeric",
    "LA": "LessThanOrEqualAlphabetic",
    "LN": "LessThanOrEqualNumeric",
    "TX": "Transfer",
    "TS": "TransferChangeSequence",
    "HA": "HalfAdd",
    "SM": "Superimpose",
    "CP": "CheckParity",
    "BM": "BinaryMultiply",
    "DM": "DecimalMultiply",
    "BT": "BinaryAccumulate",
    "DT": "DecimalAccumulate",
    "MT": "MultipleTransfer",
    "TN": "TransferNWords",
    "CC": "ComputeOrthocount",
    "IT": "ItemTransfer",
    "EBA": "ExtendedBinaryAdd",
    "EBS": "ExtendedBinarySubtract",
    "RT": "RecordTransfer",
    "MPC": "ControlProgram",
    "PR": "Proceed",
    "SWS": "ShiftWordAndSubstitute",
    "SPS": "ShiftPreservingSignAndSubstitute",
    "SWE": "ShiftWordAndExtract",
    "SPE": "ShiftPreservingSignAndExtract",
    "SSL": "ShiftAndSelect",
    "SS": "Substitute",
    "EX": "Extract",
    "RF": "ReadForward",
    "RB": "ReadBackward",
    "WF": "WriteForward",
    "RW": "Rewind",
    "PRA": "PrintAlphabetic",
    "PRD": "PrintDecimal",
    "PRO": "PrintOctal",
    "S": "Simulator",
    "FBA": "FloatingBinaryAdd",
    "FDA": "FloatingDecimalAdd",
    "FBS": "FloatingBinarySubtract",
    "FDS": "FloatingDecimalSubtract",
    "FBD": "FloatingBinaryDivide",
    "FDD": "FloatingDecimalDivide",
    "FBAU": "FloatingBinaryAddUnnormalized",
    "FDAU": "FloatingDecimalAddUnnormalized",
    "FBSU": "FloatingBinarySubtractUnnormalized",
    "FDSU": "FloatingDecimalSubtractUnnormalized",
    "FBM": "FloatingBinaryMultiply",
    "FDM": "FloatingDecimalMultiply",
    "ULD": "MultipleUnload",
    "FBAE": "FloatingBinaryAddExtendedPrecision",
    "FBSE": "FloatingBinarySubtractExtendedPrecision",
    "BD": "FixedBinaryDivide",
    "DD": "FixedDecimalDivide",
    "FFN": "FixedToFloatingNormalize",
    "FCON": "Conversion",
    "FLN": "FloatingLessThanNormalized",
    "FNN": "FloatingNotEqualNormalized",
}

CONSTANTS = {
    "ALF": "AlphanumericConstant",
    "DEC": "DecimalConstant",
    "EBC": "ExtendedBinaryConstant",
    "FLBIN": "FloatingBinaryConstant",
    "FLDEC": "FloatingDecimalConstant",
    "FXBIN": "FixedBinaryConstant",
    "OCT": "OctalConstant",
    "SPEC": "SpecialAddressConstant",
    "CAC": "CompleteAddressConstant",
    "MASKBASE": "MaskBaseAddressConstant",
    "CONTROL": "ProgramControlConstant",
    "M": "MixedConstant",
    "TAC": "TapeAddressConstant",
    "LINK": "LinkageConstant",
    "SEGNAME": "SegmentNameConstant",
    "SUBCALL": "SubroutineCallConstant",
}

# control, constant, extended, miscellaneous and ARGUS mnemonics
OTHER = [
    "ASSIGN",
    "END",
    "EQUALS",
    "EVEN",
    "MASKGRP",
    "MODLOC",
    "RESERVE",
    "SETLOC",
    "SIMULATE",
    "TAS",
    "ALF",
    "DEC",
    "EBC",
    "FLBIN",
    "FLDEC",
    "FXBIN",
    "OCT",
    "SPEC",
    "CAC",
    "MASKBASE",
    "CONTROL",
    "M",
    "TAC",
    "LINK",
    "SEGNAME",
    "SUBCALL",
    "CSCON",
    "DOFF",
    "DON",
    "SCON",
    "SPCR",
    "STOP",
    "COREDUMP",
    "DUMP",
    "ARGUS",
    "U",
    "MACRODEF",
    "FINIS",
    "ELIMSEG",
    "SEGMENT",
    "PROGRAM",
    "TESTDATA",
    "ELIMDATA",
    "ELIMDERL",
    "DELETE",
    "ENDARGUS",
]

KNOWN = list(CLASSES) + OTHER
