----------------------------- MODULE SrsTable -----------------------------
EXTENDS Integers
(* Written by lib/srstable.py: Place[w][system][i + 1][j + 1] is where position (i, j) of world w is: 'deg' in millionths of a degree,
   'merc' (EPSG 3857) and 'utm' (EPSG 25832) in metres. *)
Place ==
 [wide |->
  [deg |->
    <<<<<<-120250000, -33250000>>, <<-120250000, -1000000>>, <<-120250000, 500000>>, <<-120250000, 20000000>>, <<-120250000, 48000000>>, <<-120250000, 50000000>>, <<-120250000, 50010000>>, <<-120250000, 70000000>>>>,
     <<<<-70500000, -33250000>>, <<-70500000, -1000000>>, <<-70500000, 500000>>, <<-70500000, 20000000>>, <<-70500000, 48000000>>, <<-70500000, 50000000>>, <<-70500000, 50010000>>, <<-70500000, 70000000>>>>,
     <<<<-10000000, -33250000>>, <<-10000000, -1000000>>, <<-10000000, 500000>>, <<-10000000, 20000000>>, <<-10000000, 48000000>>, <<-10000000, 50000000>>, <<-10000000, 50010000>>, <<-10000000, 70000000>>>>,
     <<<<500000, -33250000>>, <<500000, -1000000>>, <<500000, 500000>>, <<500000, 20000000>>, <<500000, 48000000>>, <<500000, 50000000>>, <<500000, 50010000>>, <<500000, 70000000>>>>,
     <<<<9250000, -33250000>>, <<9250000, -1000000>>, <<9250000, 500000>>, <<9250000, 20000000>>, <<9250000, 48000000>>, <<9250000, 50000000>>, <<9250000, 50010000>>, <<9250000, 70000000>>>>,
     <<<<11000000, -33250000>>, <<11000000, -1000000>>, <<11000000, 500000>>, <<11000000, 20000000>>, <<11000000, 48000000>>, <<11000000, 50000000>>, <<11000000, 50010000>>, <<11000000, 70000000>>>>,
     <<<<11010000, -33250000>>, <<11010000, -1000000>>, <<11010000, 500000>>, <<11010000, 20000000>>, <<11010000, 48000000>>, <<11010000, 50000000>>, <<11010000, 50010000>>, <<11010000, 70000000>>>>,
     <<<<150000000, -33250000>>, <<150000000, -1000000>>, <<150000000, 500000>>, <<150000000, 20000000>>, <<150000000, 48000000>>, <<150000000, 50000000>>, <<150000000, 50010000>>, <<150000000, 70000000>>>>>>,
   merc |->
    <<<<<<-13386169, -3928534>>, <<-13386169, -111325>>, <<-13386169, 55660>>, <<-13386169, 2273031>>, <<-13386169, 6106855>>, <<-13386169, 6446276>>, <<-13386169, 6448008>>, <<-13386169, 11068716>>>>,
     <<<<-7848024, -3928534>>, <<-7848024, -111325>>, <<-7848024, 55660>>, <<-7848024, 2273031>>, <<-7848024, 6106855>>, <<-7848024, 6446276>>, <<-7848024, 6448008>>, <<-7848024, 11068716>>>>,
     <<<<-1113195, -3928534>>, <<-1113195, -111325>>, <<-1113195, 55660>>, <<-1113195, 2273031>>, <<-1113195, 6106855>>, <<-1113195, 6446276>>, <<-1113195, 6448008>>, <<-1113195, 11068716>>>>,
     <<<<55660, -3928534>>, <<55660, -111325>>, <<55660, 55660>>, <<55660, 2273031>>, <<55660, 6106855>>, <<55660, 6446276>>, <<55660, 6448008>>, <<55660, 11068716>>>>,
     <<<<1029705, -3928534>>, <<1029705, -111325>>, <<1029705, 55660>>, <<1029705, 2273031>>, <<1029705, 6106855>>, <<1029705, 6446276>>, <<1029705, 6448008>>, <<1029705, 11068716>>>>,
     <<<<1224514, -3928534>>, <<1224514, -111325>>, <<1224514, 55660>>, <<1224514, 2273031>>, <<1224514, 6106855>>, <<1224514, 6446276>>, <<1224514, 6448008>>, <<1224514, 11068716>>>>,
     <<<<1225628, -3928534>>, <<1225628, -111325>>, <<1225628, 55660>>, <<1225628, 2273031>>, <<1225628, 6106855>>, <<1225628, 6446276>>, <<1225628, 6448008>>, <<1225628, 11068716>>>>,
     <<<<16697924, -3928534>>, <<16697924, -111325>>, <<16697924, 55660>>, <<16697924, 2273031>>, <<16697924, 6106855>>, <<16697924, 6446276>>, <<16697924, 6448008>>, <<16697924, 11068716>>>>>>],
  near |->
  [deg |->
    <<<<<<6500000, 47000000>>, <<6500000, 48000000>>, <<6500000, 48001000>>, <<6500000, 49500000>>, <<6500000, 50000000>>, <<6500000, 50010000>>, <<6500000, 52000000>>, <<6500000, 54250000>>>>,
     <<<<8000000, 47000000>>, <<8000000, 48000000>>, <<8000000, 48001000>>, <<8000000, 49500000>>, <<8000000, 50000000>>, <<8000000, 50010000>>, <<8000000, 52000000>>, <<8000000, 54250000>>>>,
     <<<<9000000, 47000000>>, <<9000000, 48000000>>, <<9000000, 48001000>>, <<9000000, 49500000>>, <<9000000, 50000000>>, <<9000000, 50010000>>, <<9000000, 52000000>>, <<9000000, 54250000>>>>,
     <<<<9250000, 47000000>>, <<9250000, 48000000>>, <<9250000, 48001000>>, <<9250000, 49500000>>, <<9250000, 50000000>>, <<9250000, 50010000>>, <<9250000, 52000000>>, <<9250000, 54250000>>>>,
     <<<<10000000, 47000000>>, <<10000000, 48000000>>, <<10000000, 48001000>>, <<10000000, 49500000>>, <<10000000, 50000000>>, <<10000000, 50010000>>, <<10000000, 52000000>>, <<10000000, 54250000>>>>,
     <<<<11000000, 47000000>>, <<11000000, 48000000>>, <<11000000, 48001000>>, <<11000000, 49500000>>, <<11000000, 50000000>>, <<11000000, 50010000>>, <<11000000, 52000000>>, <<11000000, 54250000>>>>,
     <<<<11010000, 47000000>>, <<11010000, 48000000>>, <<11010000, 48001000>>, <<11010000, 49500000>>, <<11010000, 50000000>>, <<11010000, 50010000>>, <<11010000, 52000000>>, <<11010000, 54250000>>>>,
     <<<<11750000, 47000000>>, <<11750000, 48000000>>, <<11750000, 48001000>>, <<11750000, 49500000>>, <<11750000, 50000000>>, <<11750000, 50010000>>, <<11750000, 52000000>>, <<11750000, 54250000>>>>>>,
   merc |->
    <<<<<<723577, 5942074>>, <<723577, 6106855>>, <<723577, 6107021>>, <<723577, 6360131>>, <<723577, 6446276>>, <<723577, 6448008>>, <<723577, 6800125>>, <<723577, 7217646>>>>,
     <<<<890556, 5942074>>, <<890556, 6106855>>, <<890556, 6107021>>, <<890556, 6360131>>, <<890556, 6446276>>, <<890556, 6448008>>, <<890556, 6800125>>, <<890556, 7217646>>>>,
     <<<<1001875, 5942074>>, <<1001875, 6106855>>, <<1001875, 6107021>>, <<1001875, 6360131>>, <<1001875, 6446276>>, <<1001875, 6448008>>, <<1001875, 6800125>>, <<1001875, 7217646>>>>,
     <<<<1029705, 5942074>>, <<1029705, 6106855>>, <<1029705, 6107021>>, <<1029705, 6360131>>, <<1029705, 6446276>>, <<1029705, 6448008>>, <<1029705, 6800125>>, <<1029705, 7217646>>>>,
     <<<<1113195, 5942074>>, <<1113195, 6106855>>, <<1113195, 6107021>>, <<1113195, 6360131>>, <<1113195, 6446276>>, <<1113195, 6448008>>, <<1113195, 6800125>>, <<1113195, 7217646>>>>,
     <<<<1224514, 5942074>>, <<1224514, 6106855>>, <<1224514, 6107021>>, <<1224514, 6360131>>, <<1224514, 6446276>>, <<1224514, 6448008>>, <<1224514, 6800125>>, <<1224514, 7217646>>>>,
     <<<<1225628, 5942074>>, <<1225628, 6106855>>, <<1225628, 6107021>>, <<1225628, 6360131>>, <<1225628, 6446276>>, <<1225628, 6448008>>, <<1225628, 6800125>>, <<1225628, 7217646>>>>,
     <<<<1308004, 5942074>>, <<1308004, 6106855>>, <<1308004, 6107021>>, <<1308004, 6360131>>, <<1308004, 6446276>>, <<1308004, 6448008>>, <<1308004, 6800125>>, <<1308004, 7217646>>>>>>,
   utm |->
    <<<<<<309940, 5208198>>, <<313517, 5319325>>, <<313521, 5319436>>, <<318990, 5486045>>, <<320842, 5541626>>, <<320879, 5542737>>, <<328387, 5763989>>, <<337126, 6014222>>>>,
     <<<<423975, 5205649>>, <<425405, 5316784>>, <<425406, 5316895>>, <<427593, 5483521>>, <<428334, 5539110>>, <<428348, 5540222>>, <<431350, 5761510>>, <<434845, 6011799>>>>,
     <<<<500000, 5205164>>, <<500000, 5316300>>, <<500000, 5316411>>, <<500000, 5483041>>, <<500000, 5538631>>, <<500000, 5539743>>, <<500000, 5761038>>, <<500000, 6011337>>>>,
     <<<<519006, 5205194>>, <<518649, 5316330>>, <<518649, 5316442>>, <<518102, 5483071>>, <<517917, 5538661>>, <<517913, 5539772>>, <<517163, 5761068>>, <<516289, 6011366>>>>,
     <<<<576025, 5205649>>, <<574595, 5316784>>, <<574594, 5316895>>, <<572407, 5483521>>, <<571666, 5539110>>, <<571652, 5540222>>, <<568650, 5761510>>, <<565155, 6011799>>>>,
     <<<<652049, 5207105>>, <<649188, 5318236>>, <<649185, 5318347>>, <<644811, 5484963>>, <<643329, 5540547>>, <<643299, 5541659>>, <<637294, 5762927>>, <<630304, 6013183>>>>,
     <<<<652809, 5207125>>, <<649934, 5318255>>, <<649931, 5318366>>, <<645535, 5484982>>, <<644046, 5540567>>, <<644016, 5541678>>, <<637981, 5762946>>, <<630955, 6013202>>>>,
     <<<<709065, 5208835>>, <<705129, 5319960>>, <<705126, 5320071>>, <<699109, 5486676>>, <<697071, 5542255>>, <<697030, 5543367>>, <<688772, 5764609>>, <<679158, 6014828>>>>>>]]
=============================================================================
