from . import effects

effects.register("C10")
