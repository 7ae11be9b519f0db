PROP = "C23"
NEEDS = "a configuration in warning mode that names an unreadable file"
BREAKS = "an unreadable pattern file is only reported instead of refused"
EDITS = [("diffkemp/semdiff/custom_pattern_config.py", '''        for pattern in yaml_dict["patterns"]:
            self.add_pattern(pattern)''', '''        for pattern in yaml_dict["patterns"]:
            try:
                self.add_pattern(pattern)
            except UnsupportedCustomPatternError:
                raise
            except ValueError as e:
                self._on_parse_failure(str(e))''')]
DEMO = r'''
import os, tempfile
from diffkemp.semdiff.custom_pattern_config import CustomPatternConfig as C
d = tempfile.mkdtemp()
open(d + "/c.yaml", "w").write("on_parse_failure: WARN\npatterns: [%s/gone.ll]\n" % d)
try:
    C.create_from_file(d + "/c.yaml")
except ValueError:
    pass
else:
    raise AssertionError("unreadable pattern file accepted")
finally:
    os.remove(d + "/c.yaml")
    os.rmdir(d)
'''
