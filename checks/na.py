from checks.props import PROPS
from checks.registry import CHECKS
NA = {p["id"]: "check not built yet" for p in PROPS if p["id"] not in CHECKS}
