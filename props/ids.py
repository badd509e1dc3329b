IDS = {"C01": "list_builtins", "C02": "maps", "C03": "control", "C04": "binding", "C05": "strings", "C06": "subdir", "C07": "quasi", "C08": "linked_map", "C09": "configuration", "C10": "paths", "C11": "staging", "C12": "entity", "C13": "hashing", "C14": "action", "C15": "chunker", "C16": "values", "C17": "cache", "C18": "artdesc"}
