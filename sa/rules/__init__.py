"""Rule modules; importing this package registers every rule."""
from . import base
