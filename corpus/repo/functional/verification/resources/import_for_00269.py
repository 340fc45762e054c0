from .other_import_for_00269 import foo