"""tools/demolib/kpxlay.py: the self-contained layout/LVSDB builder that demonstrations carry with them."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = open(V + '/kv/pylvs.py').read().replace('from . import core\n', '').replace('core.PB', "os.path.join(os.getcwd(), 'klayout_pex_protobuf')")
b = open(V + '/kv/rcx.py').read().split('from . import core, pylvs')[1]
b = b.replace('pylvs.', '').replace("    core.quiet()\n", "    from klayout_pex.log import set_log_level, LogLevel\n    set_log_level(LogLevel.ERROR)\n")
b = b.replace("def tech(", "def tech(")
open(V + '/tools/demolib/kpxlay.py', 'w').write(a + b)
