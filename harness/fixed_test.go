package parser_test

import (
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

type vFix struct {
	prop  string // "" = structural oracles of every property
	in    string
	check func(q *types.SoqlQuery, err error) string
}

var vFixed = []vFix{
	{in: "select x, (select Mgr from Bars b, B) from Obj"},
	{in: "select x, (select order_id from Z_2, Z_2) from Obj"},
	{in: "select (select y, z, w from Kids), (select (select v from Foos where v = k.w) from Kids k) from T"},
	{in: "select x from Obj, $q1.Mgr obj limit 3905"},
	{in: "SELECT Id FROM Contact, Acct Contact, Foo.Bar"},
	{in: "SELECT Id FROM Contact c, c.Account.Owner o, c.Account a where a.x=1 and o.y=2"},
	{in: "select (select notes from Foos),(select Id from Foos where Id=2) from Case"},
	{in: "select (select y from Acct.Kids k where k.z = 1) from Case c where c.x = 2"},
	{in: "select Acct.x, (select y from Acct) from Case"},
	{in: "select Id from A where x in (select id from Contact) or y in (select id from Contact where z = 1)"},
	{in: "select Id from A where x in (select id from Contact where Acct.z = 1 and q in (select w from B))"},
	{in: "select Id from A for reference"},
	{in: "select Id from A limit :LIM offset :Off"},
	{in: "SELECT Name Nm, count_distinct(Id) c FROM Contact GROUP BY NM HAVING count(Id) > 1"},
	{in: "SELECT Id FROM Contact"},
	{in: "SELECT Id FROM Contact WHERE x = 1 or (y = 2 and Account.z = 3)"},
	{in: "SELECT Id FROM Contact WHERE not(a = 1) and not (b = 2 or not (c=3 and Account.d=4))"},
	{in: "SELECT Id FROM Contact WHERE a not in ('x', TODAY, :P1, LAST_N_DAYS:3, null) LIMIT :Lim OFFSET :OFF"},
	{in: "SELECT Id FROM Contact WHERE Id IN (SELECT x FROM Foo WHERE Bar.y = 1)"},
	{in: "SELECT Id, Id, Name x, Name FROM Contact c, c.Account a, a.Owner o, Foo f where c.zz = o.x and a.b=1"},
	{in: "SELECT Id FROM Contact FOR VIEW"},
	{in: "SELECT Name Nm, count(Id) FROM Contact GROUP BY nm"},
	{in: "SELECT f(a,b) x FROM Contact WHERE g(h(c.d), 'x', :p) = :q"},
	{in: "SELECT Id, (SELECT Id FROM Foos WHERE Contact.x = y) FROM Contact"},
	{in: "SELECT Id, (SELECT Id, (SELECT z FROM Bars b WHERE b.q = 1 or b.Own.x = 2) FROM Foos) FROM Contact ORDER BY Id DESC NULLS LAST"},
	{in: "SELECT Id, (SELECT Owner FROM Foos WHERE c.Acct.x = y) FROM Contact c, c.Acct"},
	{in: "SELECT Id, (SELECT Owner FROM Foos WHERE f(c.Acct.x) = 1) FROM Contact c, c.Acct a"},
}
