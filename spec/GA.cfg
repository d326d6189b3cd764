SPECIFICATION Spec
CONSTANTS
  Scn = {1,2,3,4,5,6,7,8,9,10,11,12,13,14}
  MaxG = 2
  AllK = {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C17"}
INVARIANTS BestIsBest HistoryMonotone ValuesAreOwn ScoreOrder EvalOnce FeasibleUnpenalised Decoded Closed Sizes Histories Counter Stops
PROPERTIES Elitism ClausesAccept
CHECK_DEADLOCK FALSE
