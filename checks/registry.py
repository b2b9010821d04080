from props import PROPS
CHECKS = {p['id']: (p['module'], p['func'], p['explain'], p['assumptions']) for p in PROPS}
