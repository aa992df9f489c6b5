#ifndef LOGREC_HPP
#define LOGREC_HPP
#include "vc.hpp"
#include <log4cpp/Category.hh>
#include <log4cpp/HierarchyMaintainer.hh>
#include <log4cpp/AppenderSkeleton.hh>
#include <log4cpp/FixedContextCategory.hh>
#include <log4cpp/NDC.hh>
struct Rec { std::string cat, msg, ndc; int prio; bool operator==( const Rec& o ) const { return cat == o.cat && msg == o.msg && ndc == o.ndc && prio == o.prio; } };
// appender that records what it is given; counts live instances
struct RecAppender : public log4cpp::AppenderSkeleton
{
	std::vector< Rec > got; int* alive; unsigned magic;
	RecAppender( const std::string& n, int* a = 0 ) : log4cpp::AppenderSkeleton( n ), alive( a ), magic( 0xfeed ) { if( alive ) ++*alive; }
	~RecAppender() { magic = 0xdead; if( alive ) --*alive; }
	void close() {}
	bool requiresLayout() const { return false; }
	void setLayout( log4cpp::Layout* ) {}
	void _append( const log4cpp::LoggingEvent& e ) { Rec r = { e.categoryName, e.message, e.ndc, e.priority }; got.push_back( r ); }
};
#endif
