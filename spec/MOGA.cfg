SPECIFICATION Spec
CONSTANTS
  Scn = {1,2,3,4,5,6,7,8}
  MaxG = 2
  AllK = {"C03","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C17","C18","C19","C20"}
INVARIANTS RankOne RankMonotone ScoreByRank OwnValues FrontIsFront FrontImproves CounterBounds Stops VegaSizes
PROPERTIES VegaBest ClausesAccept
CHECK_DEADLOCK FALSE
