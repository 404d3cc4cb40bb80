"""Design models: (module, behaviours are replayed into the real code) per property.

<module>_quick.cfg and <module>_thorough.cfg bound them."""
MODELS = {
    "C01": [("SszCodecM", False)],
    "C02": [("SszCodecM", False)],
    "C03": [("SszCodecM", False), ("SszFarM", False)],
    "C04": [("SszCodecM", False)],
    "C05": [("SszBuilder", True), ("SszListM", True)],
    "C06": [("SszAllocM", False)],
    "C09": [("SszBuilder", True), ("SszListM", True)],
    "C07": [("SszCodecM", False)],
    "C10": [("SszEncoderM", True), ("SszFarM", False)],
    "C11": [("SszBitfieldM", True)],
    "C12": [("SszBitfieldM", False), ("GenBits", True)],
    "C13": [("SszBitfieldM", False), ("GenBits", True)],
    "C14": [("SszBitfieldM", False), ("GenBits", True)],
    "C18": [("SszHexM", True)],
    "C16": [("SszListM", True)],
    "C17": [("SszLegacyM", False)],
    "C20": [("SszArbM", True)],
}

# what GenBits generates
SIDE = {"C12": "pairs", "C13": "resizes", "C14": "bytes"}
