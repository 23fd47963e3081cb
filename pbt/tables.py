"""Tables of MS-SHLLINK, MS-OLEPS and the libfwsi shell item format, typed in
independently of /repo (the expected names of every enumerated value)."""

LINK_FLAGS = """HasTargetIDList HasLinkInfo HasName HasRelativePath HasWorkingDir HasArguments
HasIconLocation IsUnicode ForceNoLinkInfo HasExpString RunInSeparateProcess Reserved0 HasDarwinID
RunAsUser HasExpIcon NoPidlAlias Reserved1 RunWithShimLayer ForceNoLinkTrack EnableTargetMetadata
DisableLinkPathTracking DisableKnownFolderTracking DisableKnownFolderAlias AllowLinkToLink
UnaliasOnSave PreferEnvironmentPath KeepLocalIDListForUNCTarget""".split()
LF = {n: 1 << i for i, n in enumerate(LINK_FLAGS)}
SECTION_BITS = 0x1FF          # HasTargetIDList .. ForceNoLinkInfo decide the layout

FILE_FLAGS = ["FILE_ATTRIBUTE_READONLY", "FILE_ATTRIBUTE_HIDDEN", "FILE_ATTRIBUTE_SYSTEM",
              "Reserved, not used by the LNK format", "FILE_ATTRIBUTE_DIRECTORY",
              "FILE_ATTRIBUTE_ARCHIVE", "FILE_ATTRIBUTE_DEVICE", "FILE_ATTRIBUTE_NORMAL",
              "FILE_ATTRIBUTE_TEMPORARY", "FILE_ATTRIBUTE_SPARSE_FILE",
              "FILE_ATTRIBUTE_REPARSE_POINT", "FILE_ATTRIBUTE_COMPRESSED",
              "FILE_ATTRIBUTE_OFFLINE", "FILE_ATTRIBUTE_NOT_CONTENT_INDEXED",
              "FILE_ATTRIBUTE_ENCRYPTED", "FILE_ATTRIBUTE_INTEGRITY_STREAM",
              "FILE_ATTRIBUTE_VIRTUAL", "FILE_ATTRIBUTE_NO_SCRUB_DATA"]

SHOW = {3: "SW_SHOWMAXIMIZED", 7: "SW_SHOWMINNOACTIVE"}

HOT_MOD = {0: "UNSET", 1: "SHIFT", 2: "CONTROL", 4: "ALT"}
HOT_KEY = {0: "UNSET", 0x90: "NUM_LOCK", 0x91: "SCROLL_LOCK"}
for _c in range(0x30, 0x3A):
    HOT_KEY[_c] = chr(_c)
for _c in range(0x41, 0x5B):
    HOT_KEY[_c] = chr(_c)
for _i in range(24):
    HOT_KEY[0x70 + _i] = "F%d" % (_i + 1)

DRIVE_TYPES = ["DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED",
               "DRIVE_REMOTE", "DRIVE_CDROM", "DRIVE_RAMDISK"]

_P = {0x1A: "AVID", 0x1B: "DOCUSPACE", 0x1C: "MANGOSOFT", 0x1D: "SERNET", 0x1E: "RIVERFRONT1",
      0x1F: "RIVERFRONT2", 0x20: "DECORB", 0x21: "PROTSTOR", 0x22: "FJ_REDIR", 0x23: "DISTINCT",
      0x24: "TWINS", 0x25: "RDR2SAMPLE", 0x26: "CSC", 0x27: "3IN1", 0x29: "EXTENDNET",
      0x2A: "STAC", 0x2B: "FOXBAT", 0x2C: "YAHOO", 0x2D: "EXIFS", 0x2E: "DAV", 0x2F: "KNOWARE",
      0x30: "OBJECT_DIRE", 0x31: "MASFAX", 0x32: "HOB_NFS", 0x33: "SHIVA", 0x34: "IBMAL",
      0x35: "LOCK", 0x36: "TERMSRV", 0x37: "SRT", 0x38: "QUINCY", 0x39: "OPENAFS", 0x3A: "AVID1",
      0x3B: "DFS", 0x3C: "KWNP", 0x3D: "ZENWORKS", 0x3E: "DRIVEONWEB", 0x3F: "VMWARE",
      0x40: "RSFX", 0x41: "MFILES", 0x42: "MS_NFS", 0x43: "GOOGLE"}
PROVIDERS = {k << 12: "WNNC_NET_" + v for k, v in _P.items()}

ITEM_CLASS = {0x00: "Control panel CPL file", 0x01: "Control panel category",
              0x1E: "Root Folder", 0x1F: "Root Folder", 0x52: "Compressed folder",
              0x61: "Internet", 0x70: "Control panel", 0x71: "Control panel",
              0x72: "Printers", 0x73: "Common places folder", 0x74: "Users files folder"}
MASKED_CLASS = {0x20: "Volume Item", 0x30: "File entry", 0x40: "Network location"}


def item_class(t):
    return MASKED_CLASS.get(t & 0x70) or ITEM_CLASS.get(t) or "Unknown"


SORT_INDEX = {0x00: "Internet Explorer", 0x42: "Libraries", 0x44: "Users", 0x4C: "Public Folder",
              0x48: "My Documents", 0x50: "My Computer", 0x54: "UsersLibraries",
              0x58: "My Networs Places/Network", 0x60: "Recycle Bin", 0x68: "Internet Explorer",
              0x78: "Recycle Bin", 0x80: "My Games"}

# kind of a file entry or network location by the low three bits of its type
KIND = {0: "Unknown", 1: "Is directory", 2: "Is file", 3: "Is share", 4: "Has Unicode strings",
        5: "Is Unicode directory", 6: "Is Unicode file", 7: "Is Unicode share"}

CATEGORIES = ["All Control Panel Items", "Appearance and Personalization", "Hardware and Sound",
              "Network and Internet", "Sounds, Speech, and Audio Devices", "System and Security",
              "Clock, Language, and Region", "Ease of Access", "Programs", "User Accounts",
              "Security Center", "Mobile PC"]

_SCALAR = {0x00: "EMPTY", 0x01: "NULL", 0x02: "I2", 0x03: "I4", 0x04: "R4", 0x05: "R8",
           0x06: "CY", 0x07: "DATE", 0x08: "BSTR", 0x0A: "ERROR", 0x0B: "BOOL", 0x0E: "DECIMAL",
           0x10: "I1", 0x11: "UI1", 0x12: "UI2", 0x13: "UI4", 0x14: "I8", 0x15: "UI8",
           0x16: "INT", 0x17: "UINT", 0x1E: "LPSTR", 0x1F: "LPWSTR", 0x40: "FILETIME",
           0x41: "BLOB", 0x42: "STREAM", 0x43: "STORAGE", 0x44: "STREAMED_Object",
           0x45: "STORED_Object", 0x46: "BLOB_Object", 0x47: "CF", 0x48: "CLSID",
           0x49: "VERSIONED_STREAM"}
_BASE = dict(_SCALAR)
_BASE[0x0C] = "VARIANT"
_VECTOR = [2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 16, 17, 18, 19, 20, 21, 30, 31, 64, 71, 72]
_ARRAY = [2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 14, 16, 17, 18, 19, 22, 23]
PROP_TYPES = {k: "VT_" + v for k, v in _SCALAR.items()}
PROP_TYPES.update({0x1000 + k: "VT_VECTOR_" + _BASE[k] for k in _VECTOR})
PROP_TYPES.update({0x2000 + k: "VT_ARRAY_" + _BASE[k] for k in _ARRAY})
VT_I2, VT_LPWSTR = 0x02, 0x1F

NAMED_FORMAT = "05D5CDD59C2E1B10939708002B2CF9AE".lower()   # stored bytes of D5CDD505-2E9C-...

SIG = {"env": 0xA0000001, "console": 0xA0000002, "tracker": 0xA0000003, "codepage": 0xA0000004,
       "special": 0xA0000005, "darwin": 0xA0000006, "icon": 0xA0000007, "shim": 0xA0000008,
       "meta": 0xA0000009, "known": 0xA000000B, "shellitem": 0xA000000C}
BLOCK_NAME = {"env": "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK",
              "console": "CONSOLE_PROPERTIES_BLOCK",
              "tracker": "DISTRIBUTED_LINK_TRACKER_BLOCK",
              "codepage": "CONSOLE_CODEPAGE_BLOCK",
              "special": "SPECIAL_FOLDER_LOCATION_BLOCK",
              "darwin": "DARWIN_BLOCK", "icon": "ICON_LOCATION_BLOCK",
              "shim": "SHIM_LAYER_BLOCK", "meta": "METADATA_PROPERTIES_BLOCK",
              "known": "KNOWN_FOLDER_LOCATION_BLOCK",
              "shellitem": "SHELL_ITEM_IDENTIFIER_BLOCK", "unknown": "UNKNOWN_BLOCK"}

# order of the string data, with their keys in the report and their limits
STRINGS = [("description", "HasName", 260), ("relative_path", "HasRelativePath", 260),
           ("working_directory", "HasWorkingDir", 260),
           ("command_line_arguments", "HasArguments", None),
           ("icon_location", "HasIconLocation", None)]

# Every code page Python offers for Windows ANSI text (and the multi-byte ones)
CODEPAGES = ["cp1252", "cp1250", "cp1251", "cp1253", "cp1254", "cp1255", "cp1256", "cp1257",
             "cp1258", "cp874", "cp932", "cp936", "cp949", "cp950", "cp437", "cp850", "cp852",
             "cp855", "cp857", "cp858", "cp860", "cp861", "cp862", "cp863", "cp864", "cp865",
             "cp866", "cp869", "cp720", "cp737", "cp775", "cp1125", "cp1006", "utf-8", "latin-1",
             "ascii", "iso8859-2", "iso8859-5", "iso8859-7", "iso8859-8", "iso8859-9",
             "iso8859-15", "koi8-r", "koi8-u", "gb18030", "big5", "big5hkscs", "shift_jis",
             "shift_jisx0213", "euc_jp", "euc_kr", "gb2312", "gbk", "johab", "hz", "mac_roman",
             "mac_cyrillic", "tis-620", "ptcp154"]
