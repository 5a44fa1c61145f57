"""Planted bugs in the HAVAH platform (Go)."""
from seeds3 import gseed

H = 'havah/hvh/'
S = H + 'hvhstate/state.go'
HEAD = '''
package main

import (
	. "vgo/hv"
)

func at(rev int64) Config {
	return Config{Rev: rev, Start: 3, Period: 2, Cycle: 2, Limit: 9, Issue: I(1000), Budget: I(700), Price: I(5), Hoover: I(100), Sust: I(0), Wallet: I(1000),
		Mgrs: []string{Mgr}}
}
func report(id int64) Op { return Op{K: "report", From: Mgr, IDs: []int64{id}} }
func reg(id int64, owner string, priv, comp bool, usdt, price int64) Op {
	return Op{K: "reg", From: NFT, IDs: []int64{id}, To: owner, Priv: priv, Comp: comp, USDT: I(usdt), Price: I(price)}
}
func unreg(id int64) Op                     { return Op{K: "unreg", From: NFT, IDs: []int64{id}} }
func claim(from string, ids ...int64) Op    { return Op{K: "claim", From: from, IDs: ids} }
func gov(k, to string) Op                   { return Op{K: k, From: Gov, To: to} }
func xfer(from, to string, v int64) Op      { return Op{K: "xfer", From: from, To: to, A: I(v)} }

type B = []Op

'''


def hseed(id, prop, edits, needs, breaks, body):
    gseed(id, prop, edits, needs, breaks, HEAD + 'func main() {\n' + body.strip('\n') + '\n}\n')


hseed('C22-lost-overwrite', 'C22', [
    (S, "	if lost = db.BigInt(); lost == nil {\n", "	if lost = db.BigInt(); lost == nil || lost.Cmp(amount) < 0 {\n"),
], 'two planets with rewards are unregistered, the second with more unclaimed reward than is collected, before the lost coins are withdrawn', 'coins of the first planet are lost for ever',
'''
	c := at(7)
	c.Planets = B{reg(1, Own1, false, false, 0, 0), reg(2, Own1, false, false, 0, 0)}
	Demo(c, nil, B{report(1), report(2)}, B{unreg(1)}, B{report(2)}, B{unreg(2)}, B{gov("withdraw", Alice)})
''')

hseed('C22-owner-height', 'C22', [
    (S, "	return s.setPlanet(planetDictDB, id, p)\n}\n\nfunc (s *State) GetPlanet(", "	return s.setPlanet(planetDictDB, id, newPlanet(p.IsCompany(), p.IsCompany(), p.Owner(), p.USDT(), p.Price(), p.Height()))\n}\n\nfunc (s *State) GetPlanet("),
], 'the owner changes of a planet which is private or company, but not both', 'a change of the owner changes the kind of the planet',
'''
	c := at(7)
	c.Planets = B{reg(1, Own1, true, false, 0, 0)}
	Demo(c, B{{K: "setowner", From: NFT, IDs: []int64{1}, To: Own2}}, nil)
''')

hseed('C22-missed-remain', 'C22', [
    (S, "		missedReward = new(big.Int).Div(rewardTotal, activePlanet)\n		missedReward = missedReward.Mul(missedReward, missedPlanet)\n",
        "		missedReward = new(big.Int).Mul(rewardTotal, missedPlanet)\n		missedReward = missedReward.Div(missedReward, activePlanet)\n"),
], 'a term in which some but not all planets work, with a reward that the number of planets does not divide', 'the missed reward is rounded up to more than what the planets which did not work would have got',
'''
	c := at(7)
	c.Issue = I(1001)
	c.Planets = B{reg(1, Own1, false, false, 0, 0), reg(2, Own1, false, false, 0, 0), reg(3, Own1, false, false, 0, 0)}
	Demo(c, nil, B{report(1)}, nil, nil)
''')

hseed('C22-second-reduction', 'C22', [
    (H + 'base.go', "	if update {\n		es.Logger().Infof(\"IssueAmount is reduced", "	if update && termSeq != 2*es.state.GetIssueReductionCycle() {\n		es.Logger().Infof(\"IssueAmount is reduced"),
], 'the term after the second reduction of the issue amount', 'the second reduction holds for one term only',
'''
	c := at(7)
	c.Period, c.Cycle = 1, 2
	Demo(c, nil, nil, nil, nil, nil, nil, nil)
''')

hseed('C22-hoover-overdraw', 'C22', [
    (H + 'extension.go', "	if hooverRequest.Cmp(hooverBalance) > 0 {\n", "	if hooverRequest.Cmp(hooverBalance) > 0 && hooverRequest.Cmp(hooverLimit) != 0 {\n"),
], 'a planet which is owed exactly up to its price while the hoover fund has less', 'the report of work fails instead of using what the fund has',
'''
	c := at(7)
	c.Hoover = I(10)
	c.Issue = I(100)
	c.Planets = B{reg(1, Own1, false, false, 720_000_000_000, 150)}
	Demo(c, nil, B{report(1)}, nil)
''')

hseed('C22-manager-swap', 'C22', [
    (S, "			if i < size-1 {\n				if err := arrayDB.Set(i, pmAddress)", "			if i < size-2 || size == 2 && i == 0 {\n				if err := arrayDB.Set(i, pmAddress)"),
], 'at least three planet managers, and the last but one is removed', 'the last manager loses the role and the removed one keeps it',
'''
	c := at(7)
	c.Mgrs = []string{Gov, Mgr, Alice}
	c.Planets = B{reg(1, Own1, false, false, 0, 0)}
	Demo(c, B{gov("rmpm", Mgr)})
''')

hseed('C22-company-total', 'C22', [
    (H + 'extension.go', "es.state.OfferReward(termNumber, id, pr, planetReward, rewardWithHoover)", "es.state.OfferReward(termNumber, id, pr, planetReward, new(big.Int).Add(planetReward, new(big.Int).Sub(ecoReward, hooverRequest)))"),
], 'a company planet which gets a subsidy of the hoover fund', 'the subsidy is not counted in the total, so that the fund pays more than the price of the planet',
'''
	c := at(7)
	c.Issue = I(100)
	c.Planets = B{reg(1, Own1, false, true, 720_000_000_000, 250)}
	Demo(c, nil, B{report(1)}, nil, B{report(1)})
''')

hseed('C22-locked-current', 'C22', [
    (S, "		lockedReward.Mul(lockedReward, pr.Total())\n", "		lockedReward.Mul(lockedReward, total)\n"),
    (S, "	if num < denom {\n		lockedReward :=", "	total := pr.Current()\n	if pr.LastTermNumber() == (height-s.GetIssueStart())/s.GetTermPeriod()+1 {\n		total = pr.Total()\n	}\n	if num < denom {\n		lockedReward :="),
], 'a private planet with a part of its rewards claimed, and a claim in a term in which it has not worked yet', 'more than the unlocked part of the rewards can be claimed',
'''
	c := at(7)
	c.Planets = B{reg(1, Own1, true, false, 0, 0)}
	Demo(c, B{{K: "rate", From: Gov, N: 1, D: 2}}, B{report(1)}, B{claim(Own1, 1)}, B{claim(Own1, 1)})
''')

hseed('C22-reuse-record', 'C22', [
    (S, "		planetRewardDictDB := s.getDictDB(hvhmodule.DictPlanetReward, 1)\n		if err = planetRewardDictDB.Delete(id); err != nil {\n			return nil, err\n		}\n",
        "		planetRewardDictDB := s.getDictDB(hvhmodule.DictPlanetReward, 1)\n		if amount.Sign() > 0 {\n			if err = planetRewardDictDB.Delete(id); err != nil {\n				return nil, err\n			}\n		}\n"),
], 'a planet which claimed all its rewards is unregistered and its id is registered again', 'the new planet starts with the total of the old one, which counts against its subsidies and its claims',
'''
	c := at(7)
	c.Planets = B{reg(1, Own1, false, false, 0, 0)}
	Demo(c, nil, B{report(1)}, B{claim(Own1, 1)}, B{unreg(1)}, B{reg(1, Own2, false, false, 0, 0)}, nil)
''')

hseed('C22-limit-off-by-one', 'C22', [
    (H + 'base.go', "		if termSeq > 0 && (issueLimit == 0 || termSeq <= issueLimit) {\n", "		if termSeq > 0 && (issueLimit == 0 || termSeq < issueLimit) {\n"),
], 'the first block after the last term with an issue', 'what the planets missed in the last term and its fees are not distributed',
'''
	c := at(7)
	c.Limit = 2
	c.Planets = B{reg(1, Own1, false, false, 0, 0)}
	Demo(c, nil, nil, nil, nil, xferB(), nil, nil, nil)
'''.replace('xferB()', 'B{xfer(Alice, Service, 50)}'))

hseed('C22-fee-both', 'C22', [
    (H + 'base.go', "		susAmount = new(big.Int).Sub(balance, ecoAmount)\n", "		susAmount = new(big.Int).Mul(new(big.Int).Div(balance, proportion.Denom()), big.NewInt(4))\n"),
], 'an amount of fees at the end of a term which 5 does not divide', 'the rest of the division stays in the treasury',
'''
	c := at(7)
	Demo(c, B{xfer(Alice, Service, 53)}, nil, nil, nil)
''')
