from . import effects

effects.register("C09")
