package main

// Code written by a script: types that expressions have not seen yet.

var recPool = []recMaker{
	makeRec[[1]int8],
	makeRec[[2]int8],
	makeRec[[3]int8],
	makeRec[[4]int8],
	makeRec[[5]int8],
	makeRec[[6]int8],
	makeRec[[7]int8],
	makeRec[[8]int8],
	makeRec[[9]int8],
	makeRec[[10]int8],
	makeRec[[11]int8],
	makeRec[[12]int8],
	makeRec[[13]int8],
	makeRec[[14]int8],
	makeRec[[15]int8],
	makeRec[[16]int8],
	makeRec[[17]int8],
	makeRec[[18]int8],
	makeRec[[19]int8],
	makeRec[[20]int8],
	makeRec[[21]int8],
	makeRec[[22]int8],
	makeRec[[23]int8],
	makeRec[[24]int8],
	makeRec[[25]int8],
	makeRec[[26]int8],
	makeRec[[27]int8],
	makeRec[[28]int8],
	makeRec[[29]int8],
	makeRec[[30]int8],
	makeRec[[31]int8],
	makeRec[[32]int8],
	makeRec[[33]int8],
	makeRec[[34]int8],
	makeRec[[35]int8],
	makeRec[[36]int8],
	makeRec[[37]int8],
	makeRec[[38]int8],
	makeRec[[39]int8],
	makeRec[[40]int8],
	makeRec[[41]int8],
	makeRec[[42]int8],
	makeRec[[43]int8],
	makeRec[[44]int8],
	makeRec[[45]int8],
	makeRec[[46]int8],
	makeRec[[47]int8],
	makeRec[[48]int8],
	makeRec[[49]int8],
	makeRec[[50]int8],
	makeRec[[51]int8],
	makeRec[[52]int8],
	makeRec[[53]int8],
	makeRec[[54]int8],
	makeRec[[55]int8],
	makeRec[[56]int8],
	makeRec[[57]int8],
	makeRec[[58]int8],
	makeRec[[59]int8],
	makeRec[[60]int8],
	makeRec[[61]int8],
	makeRec[[62]int8],
	makeRec[[63]int8],
	makeRec[[64]int8],
	makeRec[[65]int8],
	makeRec[[66]int8],
	makeRec[[67]int8],
	makeRec[[68]int8],
	makeRec[[69]int8],
	makeRec[[70]int8],
	makeRec[[71]int8],
	makeRec[[72]int8],
	makeRec[[73]int8],
	makeRec[[74]int8],
	makeRec[[75]int8],
	makeRec[[76]int8],
	makeRec[[77]int8],
	makeRec[[78]int8],
	makeRec[[79]int8],
	makeRec[[80]int8],
	makeRec[[81]int8],
	makeRec[[82]int8],
	makeRec[[83]int8],
	makeRec[[84]int8],
	makeRec[[85]int8],
	makeRec[[86]int8],
	makeRec[[87]int8],
	makeRec[[88]int8],
	makeRec[[89]int8],
	makeRec[[90]int8],
	makeRec[[91]int8],
	makeRec[[92]int8],
	makeRec[[93]int8],
	makeRec[[94]int8],
	makeRec[[95]int8],
	makeRec[[96]int8],
	makeRec[[97]int8],
	makeRec[[98]int8],
	makeRec[[99]int8],
	makeRec[[100]int8],
	makeRec[[101]int8],
	makeRec[[102]int8],
	makeRec[[103]int8],
	makeRec[[104]int8],
	makeRec[[105]int8],
	makeRec[[106]int8],
	makeRec[[107]int8],
	makeRec[[108]int8],
	makeRec[[109]int8],
	makeRec[[110]int8],
	makeRec[[111]int8],
	makeRec[[112]int8],
	makeRec[[113]int8],
	makeRec[[114]int8],
	makeRec[[115]int8],
	makeRec[[116]int8],
	makeRec[[117]int8],
	makeRec[[118]int8],
	makeRec[[119]int8],
	makeRec[[120]int8],
	makeRec[[121]int8],
	makeRec[[122]int8],
	makeRec[[123]int8],
	makeRec[[124]int8],
	makeRec[[125]int8],
	makeRec[[126]int8],
	makeRec[[127]int8],
	makeRec[[128]int8],
	makeRec[[129]int8],
	makeRec[[130]int8],
	makeRec[[131]int8],
	makeRec[[132]int8],
	makeRec[[133]int8],
	makeRec[[134]int8],
	makeRec[[135]int8],
	makeRec[[136]int8],
	makeRec[[137]int8],
	makeRec[[138]int8],
	makeRec[[139]int8],
	makeRec[[140]int8],
	makeRec[[141]int8],
	makeRec[[142]int8],
	makeRec[[143]int8],
	makeRec[[144]int8],
	makeRec[[145]int8],
	makeRec[[146]int8],
	makeRec[[147]int8],
	makeRec[[148]int8],
	makeRec[[149]int8],
	makeRec[[150]int8],
	makeRec[[151]int8],
	makeRec[[152]int8],
	makeRec[[153]int8],
	makeRec[[154]int8],
	makeRec[[155]int8],
	makeRec[[156]int8],
	makeRec[[157]int8],
	makeRec[[158]int8],
	makeRec[[159]int8],
	makeRec[[160]int8],
	makeRec[[161]int8],
	makeRec[[162]int8],
	makeRec[[163]int8],
	makeRec[[164]int8],
	makeRec[[165]int8],
	makeRec[[166]int8],
	makeRec[[167]int8],
	makeRec[[168]int8],
	makeRec[[169]int8],
	makeRec[[170]int8],
	makeRec[[171]int8],
	makeRec[[172]int8],
	makeRec[[173]int8],
	makeRec[[174]int8],
	makeRec[[175]int8],
	makeRec[[176]int8],
	makeRec[[177]int8],
	makeRec[[178]int8],
	makeRec[[179]int8],
	makeRec[[180]int8],
	makeRec[[181]int8],
	makeRec[[182]int8],
	makeRec[[183]int8],
	makeRec[[184]int8],
	makeRec[[185]int8],
	makeRec[[186]int8],
	makeRec[[187]int8],
	makeRec[[188]int8],
	makeRec[[189]int8],
	makeRec[[190]int8],
	makeRec[[191]int8],
	makeRec[[192]int8],
	makeRec[[193]int8],
	makeRec[[194]int8],
	makeRec[[195]int8],
	makeRec[[196]int8],
	makeRec[[197]int8],
	makeRec[[198]int8],
	makeRec[[199]int8],
	makeRec[[200]int8],
	makeRec[[201]int8],
	makeRec[[202]int8],
	makeRec[[203]int8],
	makeRec[[204]int8],
	makeRec[[205]int8],
	makeRec[[206]int8],
	makeRec[[207]int8],
	makeRec[[208]int8],
	makeRec[[209]int8],
	makeRec[[210]int8],
	makeRec[[211]int8],
	makeRec[[212]int8],
	makeRec[[213]int8],
	makeRec[[214]int8],
	makeRec[[215]int8],
	makeRec[[216]int8],
	makeRec[[217]int8],
	makeRec[[218]int8],
	makeRec[[219]int8],
	makeRec[[220]int8],
	makeRec[[221]int8],
	makeRec[[222]int8],
	makeRec[[223]int8],
	makeRec[[224]int8],
	makeRec[[225]int8],
	makeRec[[226]int8],
	makeRec[[227]int8],
	makeRec[[228]int8],
	makeRec[[229]int8],
	makeRec[[230]int8],
	makeRec[[231]int8],
	makeRec[[232]int8],
	makeRec[[233]int8],
	makeRec[[234]int8],
	makeRec[[235]int8],
	makeRec[[236]int8],
	makeRec[[237]int8],
	makeRec[[238]int8],
	makeRec[[239]int8],
	makeRec[[240]int8],
}
