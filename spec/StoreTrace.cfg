SPECIFICATION SSpec
CONSTANTS NoBound = NoBound
 Fresh = "fresh"
 Debris = "debris"
POSTCONDITION Complete
